// C14: pack files: record framing, header, failed state
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@known fsync_directory gen_uid write_all read_exact rewind
//@include lib/verus/bytes.rs
//@include lib/verus/question.rs
broadcast use {vx_q::ax_question, vx_bytes::group_bytes, vx_ax::ax_codec};
//@include lib/verus/datafile.rs
//@include lib/verus/crc.rs
//@include lib/verus/codec.rs
//@include lib/verus/pack.rs
//@include lib/verus/packinner.rs
//@include lib/verus/packiter.rs
} // verus!
fn main() {}
