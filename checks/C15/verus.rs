// C15: position index
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@known fsync_directory gen_uid write_all read_exact rewind
//@include lib/verus/bytes.rs
//@include lib/verus/question.rs
broadcast use {vx_q::ax_question, vx_bytes::group_bytes};
//@include lib/verus/datafile.rs
//@include lib/verus/crc.rs
//@include lib/verus/archerr.rs
//@include lib/verus/dheader.rs
//@include lib/verus/posindex.rs
} // verus!
fn main() {}
