//@ file src/io/ply/types.rs
//@ enum Type
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ impl Type
//@ fn size_bytes
//@ ret r
//@ spec
        ensures r == type_size(*self), r <= 8,
//@ enditem
//@ enum Xyz
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ enum VertexOrder
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ struct BytesWords
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ enum VertexType
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ enum FaceType
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ struct VertexFormat
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ struct FaceFormat
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ enum Format
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ enum HeaderReadState
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ struct VertexData
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ struct FaceData
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ enum Header
//@ attrs
//@ enditem
//@ struct FullHeader
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ struct PartialHeader
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ enum PlyError
//@ enditem
pub type PlyIOResult<T> = IOResult<T, PlyError>;
pub type PlyResult<T> = std::result::Result<T, PlyError>;
/// size in a binary file
pub open spec fn type_size(t: Type) -> nat { match t { Type::Char => 1, Type::UChar => 1, Type::Short => 2, Type::UShort => 2, Type::Int => 4, Type::UInt => 4, Type::Float => 4, Type::Double => 8 } }
pub open spec fn type_of(w: Seq<u8>) -> Option<Type> {
    if w == seq![99u8, 104, 97, 114] || w == seq![105u8, 110, 116, 56] { Some(Type::Char) }
    else if w == seq![117u8, 99, 104, 97, 114] || w == seq![117u8, 105, 110, 116, 56] { Some(Type::UChar) }
    else if w == seq![115u8, 104, 111, 114, 116] || w == seq![105u8, 110, 116, 49, 54] { Some(Type::Short) }
    else if w == seq![117u8, 115, 104, 111, 114, 116] || w == seq![117u8, 105, 110, 116, 49, 54] { Some(Type::UShort) }
    else if w == seq![105u8, 110, 116] || w == seq![105u8, 110, 116, 51, 50] { Some(Type::Int) }
    else if w == seq![117u8, 105, 110, 116] || w == seq![117u8, 105, 110, 116, 51, 50] { Some(Type::UInt) }
    else if w == seq![102u8, 108, 111, 97, 116] || w == seq![102u8, 108, 111, 97, 116, 51, 50] { Some(Type::Float) }
    else if w == seq![100u8, 111, 117, 98, 108, 101] || w == seq![102u8, 108, 111, 97, 116, 54, 52] { Some(Type::Double) }
    else { None }
}
pub open spec fn vertex_type(t: Type) -> Option<VertexType> { match t { Type::Float => Some(VertexType::Float), Type::Double => Some(VertexType::Double), _ => None } }
pub open spec fn face_type(t: Type) -> Option<FaceType> { match t { Type::Char => Some(FaceType::Char), Type::UChar => Some(FaceType::UChar), Type::Short => Some(FaceType::Short), Type::UShort => Some(FaceType::UShort), Type::Int => Some(FaceType::Int), Type::UInt => Some(FaceType::UInt), _ => None } }
pub open spec fn order_of(a: Xyz, b: Xyz, c: Xyz) -> Option<VertexOrder> {
    if a is X && b is Y && c is Z { Some(VertexOrder::Xyz) } else if a is X && b is Z && c is Y { Some(VertexOrder::Xzy) } else if a is Y && b is X && c is Z { Some(VertexOrder::Yxz) }
    else if a is Y && b is Z && c is X { Some(VertexOrder::Yzx) } else if a is Z && b is X && c is Y { Some(VertexOrder::Zxy) } else if a is Z && b is Y && c is X { Some(VertexOrder::Zyx) } else { None }
}
/// a property of the vertices: one of the coordinates, or something else
pub enum VProp { Coord(Xyz, VertexType), Other(Type) }
/// a property of the faces: the vertex indices, or something else
pub enum FProp { Index(FaceType, FaceType), Other(Type) }
/// what the lines read so far declare
pub struct Head { pub ply: bool, pub format: Option<Format>, pub nv: Option<usize>, pub nf: Option<usize>, pub state: HeaderReadState, pub v: Seq<VProp>, pub f: Seq<FProp> }
pub open spec fn no_head() -> Head { Head { ply: false, format: None, nv: None, nf: None, state: HeaderReadState::Meta, v: Seq::empty(), f: Seq::empty() } }
/// the coordinates in the order of the file
pub open spec fn coords(v: Seq<VProp>) -> Seq<(Xyz, VertexType)> decreases v.len() { if v.len() == 0 { Seq::empty() } else { match v.last() { VProp::Coord(d, t) => coords(v.drop_last()).push((d, t)), VProp::Other(t) => coords(v.drop_last()) } } }
/// the other properties after k coordinates
pub open spec fn gap(v: Seq<VProp>, k: int) -> Seq<Type> decreases v.len() { if v.len() == 0 { Seq::empty() } else { match v.last() { VProp::Other(t) if coords(v.drop_last()).len() == k => gap(v.drop_last(), k).push(t), _ => gap(v.drop_last(), k) } } }
/// the last declaration of the indices
pub open spec fn indices(f: Seq<FProp>) -> Option<(FaceType, FaceType)> decreases f.len() { if f.len() == 0 { None } else { match f.last() { FProp::Index(a, b) => Some((a, b)), FProp::Other(t) => indices(f.drop_last()) } } }
/// the other properties before or after the indices
pub open spec fn side(f: Seq<FProp>, after: bool) -> Seq<Type> decreases f.len() { if f.len() == 0 { Seq::empty() } else { match f.last() { FProp::Other(t) if (indices(f.drop_last()) is Some) == after => side(f.drop_last(), after).push(t), _ => side(f.drop_last(), after) } } }
pub open spec fn bytes_of(t: Seq<Type>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { bytes_of(t.drop_last()) + type_size(t.last()) } }
pub open spec fn skipped(t: Seq<Type>) -> BytesWords { BytesWords { bytes: bytes_of(t) as usize, words: t.len() as usize } }
pub enum Step { Bad, Next(Head), Done(Header) }
pub open spec fn has(l: Seq<u8>, w: Seq<u8>) -> bool { exists|i: int| 0 <= i <= l.len() - w.len() && #[trigger] l.subrange(i, i + w.len()) == w }
pub open spec fn number(w: Seq<Seq<u8>>) -> Option<usize> { if w.len() >= 3 { parse::<usize>(w[2]) } else { None } }
pub open spec fn format_of(l: Seq<u8>) -> Option<Format> {
    if l == seq![102u8, 111, 114, 109, 97, 116, 32, 97, 115, 99, 105, 105, 32, 49, 46, 48] { Some(Format::Ascii) }
    else if l == seq![102u8, 111, 114, 109, 97, 116, 32, 98, 105, 110, 97, 114, 121, 95, 108, 105, 116, 116, 108, 101, 95, 101, 110, 100, 105, 97, 110, 32, 49, 46, 48] { Some(Format::LittleEndian) }
    else if l == seq![102u8, 111, 114, 109, 97, 116, 32, 98, 105, 110, 97, 114, 121, 95, 98, 105, 103, 95, 101, 110, 100, 105, 97, 110, 32, 49, 46, 48] { Some(Format::BigEndian) }
    else { None }
}
pub open spec fn dimension_of(w: Seq<u8>) -> Option<Xyz> { if w == seq![120u8] { Some(Xyz::X) } else if w == seq![121u8] { Some(Xyz::Y) } else if w == seq![122u8] { Some(Xyz::Z) } else { None } }
/// property TYPE NAME
pub open spec fn vertex_property(w: Seq<Seq<u8>>) -> Option<VProp> {
    if w.len() < 3 || type_of(w[1]) is None { None }
    else { match dimension_of(w[2]) { None => Some(VProp::Other(type_of(w[1])->0)), Some(d) => match vertex_type(type_of(w[1])->0) { None => None, Some(t) => Some(VProp::Coord(d, t)) } } }
}
/// property list TYPE TYPE NAME
pub open spec fn face_list(w: Seq<Seq<u8>>) -> Option<FProp> {
    if w.len() < 4 || type_of(w[2]) is None || type_of(w[3]) is None || face_type(type_of(w[2])->0) is None || face_type(type_of(w[3])->0) is None { None } else { Some(FProp::Index(face_type(type_of(w[2])->0)->0, face_type(type_of(w[3])->0)->0)) }
}
pub open spec fn face_property(w: Seq<Seq<u8>>) -> Option<FProp> { if w.len() < 2 || type_of(w[1]) is None { None } else { Some(FProp::Other(type_of(w[1])->0)) } }
pub open spec fn property(h: Head, l: Seq<u8>) -> Step {
    match h.state {
        HeaderReadState::Meta => Step::Bad,
        HeaderReadState::Vertex => match vertex_property(words(l)) { None => Step::Bad, Some(p) => if p is Coord && coords(h.v).len() >= 3 { Step::Bad } else { Step::Next(Head { v: h.v.push(p), ..h }) } },
        HeaderReadState::Face => if begins(l, seq![112u8, 114, 111, 112, 101, 114, 116, 121, 32, 108, 105, 115, 116]) {
                if has(l, seq![118u8, 101, 114, 116, 101, 120, 95, 105, 110, 100, 105, 99, 101, 115]) || has(l, seq![118u8, 101, 114, 116, 101, 120, 95, 105, 110, 100, 101, 120]) { match face_list(words(l)) { None => Step::Bad, Some(p) => Step::Next(Head { f: h.f.push(p), ..h }) } } else { Step::Next(h) }
            } else { match face_property(words(l)) { None => Step::Bad, Some(p) => Step::Next(Head { f: h.f.push(p), ..h }) } },
    }
}
/// faces and their indices are optional, three coordinates are not
pub open spec fn finish(h: Head) -> Step {
    let c = coords(h.v);
    if h.format is None || h.nv is None || c.len() < 3 || order_of(c[0].0, c[1].0, c[2].0) is None { Step::Bad }
    else {
        let v = VertexData { count: h.nv->0, format: VertexFormat { order: order_of(c[0].0, c[1].0, c[2].0)->0, first: c[0].1, snd: c[1].1, third: c[2].1, before: skipped(gap(h.v, 0)), between_first_snd: skipped(gap(h.v, 1)), between_snd_third: skipped(gap(h.v, 2)), after: skipped(gap(h.v, 3)) } };
        if h.nf is Some && indices(h.f) is Some { Step::Done(Header::Full(FullHeader { format: h.format->0, vertex: v, face: FaceData { count: h.nf->0, format: FaceFormat { before: skipped(side(h.f, false)), after: skipped(side(h.f, true)), count: indices(h.f)->Some_0.0, index: indices(h.f)->Some_0.1 } } })) }
        else { Step::Done(Header::Partial(PartialHeader { format: h.format->0, vertex: v })) }
    }
}
pub open spec fn step(h: Head, l: Seq<u8>) -> Step {
    if begins(l, seq![99u8, 111, 109, 109, 101, 110, 116]) || begins(l, seq![111u8, 98, 106, 95, 105, 110, 102, 111]) { Step::Next(h) }
    else if !h.ply { if l == seq![112u8, 108, 121] { Step::Next(Head { ply: true, ..h }) } else { Step::Bad } }
    else if h.format is None { if format_of(l) is Some { Step::Next(Head { format: format_of(l), ..h }) } else { Step::Bad } }
    else if h.nv is None && begins(l, seq![101u8, 108, 101, 109, 101, 110, 116, 32, 118, 101, 114, 116, 101, 120]) { if number(words(l)) is Some { Step::Next(Head { nv: number(words(l)), state: HeaderReadState::Vertex, ..h }) } else { Step::Bad } }
    else if h.nf is None && begins(l, seq![101u8, 108, 101, 109, 101, 110, 116, 32, 102, 97, 99, 101]) { if number(words(l)) is Some { Step::Next(Head { nf: number(words(l)), state: HeaderReadState::Face, ..h }) } else { Step::Bad } }
    else if begins(l, seq![112u8, 114, 111, 112, 101, 114, 116, 121]) { property(h, l) }
    else if l == seq![101u8, 110, 100, 95, 104, 101, 97, 100, 101, 114] { finish(h) }
    else { Step::Bad }
}
/// the header at the start of s and what follows it
pub open spec fn header(h: Head, s: Seq<u8>) -> Option<(Header, Seq<u8>)> decreases s.len() via header_end {
    if s.len() == 0 { None } else { match step(h, line(s)) { Step::Bad => None, Step::Next(n) => header(n, rest(s)), Step::Done(x) => Some((x, rest(s))) } }
}
#[via_fn] proof fn header_end(h: Head, s: Seq<u8>) { rest_is_shorter(s); }
