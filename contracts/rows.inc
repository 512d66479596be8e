/// the text `to_string` makes of a number
pub uninterp spec fn num(x: f64) -> Seq<u8>;
pub open spec fn xyz_rows<P: Coords>(l: Seq<P>, c: Seq<u8>, d: Seq<u8>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = l.last(); xyz_rows(l.drop_last(), c, d) + (num(p.at(0)) + c + num(p.at(1)) + c + num(p.at(2)) + d) } }
pub open spec fn xy_rows<P: Coords>(l: Seq<P>, c: Seq<u8>, d: Seq<u8>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = l.last(); xy_rows(l.drop_last(), c, d) + (num(p.at(0)) + c + num(p.at(1)) + d) } }
