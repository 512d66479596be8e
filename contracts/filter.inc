//@ file src/is_filter.rs
//@ trait IsFilter
//@ ghost
    spec fn allows(&self, x: &T) -> bool;
//@ fn is_allowed
//@ ret r
//@ spec
        ensures r == self.allows(x),
//@ enditem
