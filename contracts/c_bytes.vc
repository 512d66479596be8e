#![allow(warnings)]
use vstd::prelude::*;
use vstd::float::FloatBitsProperties;
use vstd::std_specs::iter::*;
use std::io::{Read, Result as iRes};
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
global size_of f32 == 4;
global size_of f64 == 8;
//@include stream.inc
//@include bytes.inc
//@include frombytes.inc
fn main() {}
}
