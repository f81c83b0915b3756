//@item file=crates/storage/src/archive/pack_iter.rs path="const MAX_RECORD_SIZE"
//@end
//@include lib/verus/dheader.rs
//@include lib/verus/archerr.rs
// ---- what a record is
pub open spec fn frame(p: Seq<u8>) -> Seq<u8> { (le32(p.len() as u32) + p) + le32(crc32(le32(p.len() as u32) + p)) }
/// the bytes at `at` are a length, that many payload bytes, and a matching checksum
pub open spec fn framed_at(b: Seq<u8>, at: int, p: Seq<u8>) -> bool {
    0 <= at && at + p.len() + 8 <= b.len() && b.subrange(at, at + p.len() + 8) =~= frame(p)
}
/// stored payload of a value
pub open spec fn stored<V>(c: PackCompression, p: Seq<u8>, v: V) -> bool {
    match c { PackCompression::None => p == enc(v), PackCompression::ZStd => zok(p) && zout(p) == enc(v) }
}
/// what a reader makes of a stored payload
pub open spec fn opened(c: PackCompression, p: Seq<u8>) -> Seq<u8> { match c { PackCompression::None => p, PackCompression::ZStd => zout(p) } }
pub open spec fn declared(b: Seq<u8>, at: int) -> u32 { un32(b.subrange(at, at + 4)) }
pub open spec fn readable(c: PackCompression, p: Seq<u8>) -> bool {
    p.len() <= MAX_RECORD_SIZE && (c is ZStd ==> zok(p) && zout(p).len() <= MAX_RECORD_SIZE)
}
pub proof fn lemma_frame(b: Seq<u8>, at: int, n: int)
    requires 0 <= at, 0 <= n < 0x1_0000_0000, at + n + 8 <= b.len(),
    ensures ({ let p = b.subrange(at + 4, at + 4 + n);
        framed_at(b, at, p) <==> (declared(b, at) == n && un32(b.subrange(at + 4 + n, at + 8 + n)) == crc32(b.subrange(at, at + 4) + p)) }),
{
    let p = b.subrange(at + 4, at + 4 + n);
    assert(b.subrange(at, at + n + 8) =~= (b.subrange(at, at + 4) + p) + b.subrange(at + 4 + n, at + 8 + n));
    let f = frame(p);
    assert(f.subrange(0, 4) =~= le32(p.len() as u32));
    assert(f.subrange(4, 4 + n) =~= p);
    assert(f.subrange(4 + n, 8 + n) =~= le32(crc32(le32(p.len() as u32) + p)));
    let s = b.subrange(at, at + n + 8);
    assert(s.subrange(0, 4) =~= b.subrange(at, at + 4));
    assert(s.subrange(4 + n, 8 + n) =~= b.subrange(at + 4 + n, at + 8 + n));
    if framed_at(b, at, p) { assert(s == f); }
    if declared(b, at) == n && un32(b.subrange(at + 4 + n, at + 8 + n)) == crc32(b.subrange(at, at + 4) + p) {
        assert(le32(un32(b.subrange(at, at + 4))) =~= b.subrange(at, at + 4));
        assert(le32(un32(b.subrange(at + 4 + n, at + 8 + n))) =~= b.subrange(at + 4 + n, at + 8 + n));
        assert(s =~= f);
    }
}
/// a framed payload is determined by the bytes
pub proof fn lemma_frame_p(b: Seq<u8>, at: int, p: Seq<u8>)
    requires framed_at(b, at, p), p.len() < 0x1_0000_0000,
    ensures p =~= b.subrange(at + 4, at + 4 + p.len()), declared(b, at) == p.len(),
{
    let n = p.len() as int;
    let f = frame(p);
    assert(f.subrange(4, 4 + n) =~= p);
    assert(b.subrange(at, at + n + 8).subrange(4, 4 + n) =~= b.subrange(at + 4, at + 4 + n));
    assert(f.subrange(0, 4) =~= le32(p.len() as u32));
    assert(b.subrange(at, at + n + 8).subrange(0, 4) =~= b.subrange(at, at + 4));
}
//@fn file=crates/storage/src/archive/pack.rs path="fn write_value" ret=r
//@sub? /std::io::Error/ => io::Error
//@sub? /<V, W>/ => <V>
//@sub? /where V: Debug \+ Serialize, W: \?Sized \+ std::io::Write,/ =>
//@sub? /writer: &mut W/ => writer: &mut DataFile
//@sub? /let mut compressor = zstd::stream::write::Encoder::new\( &mut compression_buffer, 0 \)\?; compressor\.write_all\( value_buffer \)\?; compressor\.finish\( \)\?;/ => vx_zstd_compress(compression_buffer, value_buffer)?;
//@sub? /mut compression_buffer: &mut/ => compression_buffer: &mut
//@desugar res.map_err
//@spec
    requires old(writer).wf(), old(writer).bytes().len() < 0x1000_0000_0000_0000,
    ensures
        final(writer).same_setup(*old(writer)), final(writer).seek_pos == old(writer).seek_pos,
        old(writer).data_file.bytes().is_prefix_of(final(writer).data_file.bytes()),
        r is Ok ==> final(writer).wf() && exists|p: Seq<u8>| stored(compression, p, *value) && p.len() < 0x1_0000_0000 && readable(compression, p)
            && final(writer).bytes() =~= old(writer).bytes() + #[trigger] frame(p),
        r is Ok ==> !old(writer).read_only,
//@before /Ok\(\(\)\)\s*\}\s*$/
    proof {
        let p = buffer@;
        assert(stored(compression, p, *value)) by {
            assert(Seq::<u8>::empty() + enc(*value) =~= enc(*value));
            assert(p.skip(0) =~= p);
        }
        let l = le32(p.len() as u32);
        assert(Seq::<u8>::empty() + l =~= l);
        assert(writer.bytes() =~= old(writer).bytes() + frame(p));
    }
//@end
