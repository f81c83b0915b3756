// C16: digest index
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
global size_of usize == 8;
//@known B256 BloomError fsync_directory fs write_all read_exact rewind BTreeSet HashMap FxHashMap VecDeque BuildHasher
//@include lib/verus/bytes.rs
//@include lib/verus/question.rs
//@include lib/verus/viter.rs
broadcast use {vx_q::ax_question, vx_bytes::group_bytes};
#[derive(Clone, Copy)]
pub struct B256(pub [u8; 32]);
//@include lib/verus/io.rs
//@include lib/verus/pfile.rs
//@include lib/verus/hashmap.rs
//@include lib/verus/btree.rs
pub fn vx_zeroed(n: usize) -> (r: Vec<u8>) ensures r@ =~= Seq::new(n as nat, |i: int| 0u8) { vec![0; n] }
//@include lib/verus/crc.rs
//@include lib/verus/archerr.rs
//@include lib/verus/dheader.rs
//@include lib/verus/bloom.rs
//@include lib/verus/digestconst.rs
//@include lib/verus/hdxheader.rs
//@include lib/verus/bucketiter.rs
//@include lib/verus/digestindex.rs
} // verus!
fn main() {}
