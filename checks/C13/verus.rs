// C13: the buffered append-only data file is one byte array
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include lib/verus/datafile.rs
} // verus!
fn main() {}
