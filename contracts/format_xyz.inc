/// one point per line, the first line decides about the separator; false if there is a line that is no point
pub open spec fn content(s: Seq<u8>, sep: Option<u8>) -> (Seq<V3>, bool) decreases s.len() via content_ends {
    if s.len() == 0 { (Seq::empty(), true) }
    else { let d = if sep is Some { sep } else { separator(line(s), 2) };
        if d is None || point_of(tokens(line(s), d->0)) is None { (Seq::empty(), false) }
        else { let c = content(rest(s), d); (seq![point_of(tokens(line(s), d->0))->0] + c.0, c.1) } }
}
#[via_fn] proof fn content_ends(s: Seq<u8>, sep: Option<u8>) { rest_is_shorter(s); }
