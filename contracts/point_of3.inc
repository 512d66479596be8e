/// the coordinates of a line: its first three words
pub open spec fn point_of(w: Seq<Seq<u8>>) -> Option<V3> { if w.len() >= 3 && f(w[0]) is Some && f(w[1]) is Some && f(w[2]) is Some { Some(V3 { x: f(w[0])->0, y: f(w[1])->0, z: f(w[2])->0 }) } else { None } }
