/// the coordinates of a line: its first two words
pub open spec fn point_of(line: Seq<u8>, d: u8) -> Option<V2> { let w = tokens(line, d);
    if w.len() >= 2 && f(w[0]) is Some && f(w[1]) is Some { Some(V2 { x: f(w[0])->0, y: f(w[1])->0 }) } else { None } }
/// one point per line, the first line decides about the separator; false if there is a line that is no point
pub open spec fn content(s: Seq<u8>, sep: Option<u8>) -> (Seq<V2>, bool) decreases s.len() via content_ends {
    if s.len() == 0 { (Seq::empty(), true) }
    else { let d = if sep is Some { sep } else { separator(line(s), 1) };
        if d is None || point_of(line(s), d->0) is None { (Seq::empty(), false) }
        else { let c = content(rest(s), d); (seq![point_of(line(s), d->0)->0] + c.0, c.1) } }
}
#[via_fn] proof fn content_ends(s: Seq<u8>, sep: Option<u8>) { rest_is_shorter(s); }
