//@known PhantomData
//@item file=crates/storage/src/archive/error/open.rs path="enum OpenError"
//@end
/// the file identity both sides derive from the caller's index (assumed deterministic; its value is compared natively)
pub uninterp spec fn uid_of(i: u64) -> u64;
impl PackCompression {
    pub open spec fn num(self) -> u32 { match self { PackCompression::None => 0, PackCompression::ZStd => 1 } }
//@fn file=crates/storage/src/archive/pack.rs path="impl PackCompression :: fn from_u32" ret=r
//@spec
    ensures r matches Ok(c) ==> c.num() == v, v <= 1 <==> r is Ok,
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackCompression :: fn to_u32" ret=r
//@spec
    ensures r == self.num(),
//@end
}
pub open spec fn tag() -> Seq<u8> { seq![116u8, 101u8, 108u8, 110u8, 101u8, 116u8] }
/// the first 24 bytes of a header
pub open spec fn header_body(h: DataHeader) -> Seq<u8> {
    tag() + le16(h.version) + le64(h.uid) + le32(h.appnum) + le32(h.compression.num())
}
pub open spec fn header_bytes(h: DataHeader) -> Seq<u8> { header_body(h) + le32(crc32(header_body(h))) }
pub proof fn lemma_header(h: DataHeader)
    ensures header_bytes(h).len() == 28, header_body(h).len() == 24,
        header_bytes(h).subrange(0, 6) =~= tag(),
        un16(header_bytes(h).subrange(6, 8)) == h.version, un64(header_bytes(h).subrange(8, 16)) == h.uid,
        un32(header_bytes(h).subrange(16, 20)) == h.appnum, un32(header_bytes(h).subrange(20, 24)) == h.compression.num(),
        un32(header_bytes(h).subrange(24, 28)) == crc32(header_body(h)), header_bytes(h).subrange(0, 24) =~= header_body(h),
{
    let b = header_bytes(h);
    assert(b.subrange(6, 8) =~= le16(h.version));
    assert(b.subrange(8, 16) =~= le64(h.uid));
    assert(b.subrange(16, 20) =~= le32(h.appnum));
    assert(b.subrange(20, 24) =~= le32(h.compression.num()));
    assert(b.subrange(24, 28) =~= le32(crc32(header_body(h))));
}
impl DataHeader {
    #[verifier::external_body]
    pub fn gen_uid(uid_idx: u64) -> (r: u64) ensures r == uid_of(uid_idx) { unimplemented!() }
    pub open spec fn ours(self, idx: u64) -> bool { self.type_id@ == tag() && self.uid == uid_of(idx) }
//@fn file=crates/storage/src/archive/pack.rs path="impl DataHeader :: fn new" ret=r
//@sub? /type_id: \*b"telnet"/ => type_id: [116u8, 101u8, 108u8, 110u8, 101u8, 116u8]
//@sub? /type_id: \*\(&\[[^\]]*\]\)/ => type_id: [116u8, 101u8, 108u8, 110u8, 101u8, 116u8]
//@spec
    ensures r.ours(uid_idx), r.version == version, r.appnum == 1, r.compression == compression,
//@head
    proof { assert([116u8, 101u8, 108u8, 110u8, 101u8, 116u8]@ =~= tag()); }
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl DataHeader :: fn load_header_from_buffer" ret=r
//@sub? /&mut (\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@spec
    ensures
        // accepted exactly when it is the header of some version for this index and its checksum matches
        r matches Ok(h) ==> h.ours(uid_idx) && buffer@ =~= header_bytes(h),
        (exists|h: DataHeader| h.ours(uid_idx) && buffer@ =~= #[trigger] header_bytes(h)) ==> r is Ok,
//@before? /Ok\(header\)/
    proof {
        assert(header.type_id@ =~= buffer@.subrange(0, 6));
        assert(header.type_id@ =~= (&[116u8, 101u8, 108u8, 110u8, 101u8, 116u8])@);
        assert(header.type_id@ =~= tag());
        assert(header.ours(uid_idx));
        assert(header.version == un16(buffer@.subrange(6, 8)));
        assert(header.appnum == un32(buffer@.subrange(16, 20)));
        assert(header.compression.num() == un32(buffer@.subrange(20, 24)));
        assert(header_bytes(header) =~= buffer@);
    }
//@head
    proof {
        assert forall|h: DataHeader| h.ours(uid_idx) && buffer@ =~= #[trigger] header_bytes(h) implies
            un32(buffer@.subrange(24, 28)) == crc32(buffer@.subrange(0, 24)) && buffer@.subrange(0, 6) == tag()
            && un64(buffer@.subrange(8, 16)) == uid_of(uid_idx) && un32(buffer@.subrange(20, 24)) <= 1 by {
            lemma_header(h); assert(buffer@ == header_bytes(h)); assert(buffer@.subrange(0, 24) == header_body(h));
        }
        assert(buffer@ =~= buffer@.subrange(0, 6) + buffer@.subrange(6, 8) + buffer@.subrange(8, 16) + buffer@.subrange(16, 20) + buffer@.subrange(20, 24) + buffer@.subrange(24, 28));
        assert(buffer@.subrange(0, 24) =~= buffer@.subrange(0, 6) + buffer@.subrange(6, 8) + buffer@.subrange(8, 16) + buffer@.subrange(16, 20) + buffer@.subrange(20, 24));
        assert forall|h: DataHeader| #![trigger header_bytes(h)] h.ours(uid_idx) && h.version == un16(buffer@.subrange(6, 8)) && h.appnum == un32(buffer@.subrange(16, 20))
            && h.compression.num() == un32(buffer@.subrange(20, 24)) && un32(buffer@.subrange(24, 28)) == crc32(buffer@.subrange(0, 24))
            && buffer@.subrange(0, 6) == tag() && un64(buffer@.subrange(8, 16)) == uid_of(uid_idx)
            implies buffer@ =~= header_bytes(h) by {
            assert(le16(un16(buffer@.subrange(6, 8))) =~= buffer@.subrange(6, 8));
            assert(le64(un64(buffer@.subrange(8, 16))) =~= buffer@.subrange(8, 16));
            assert(le32(un32(buffer@.subrange(16, 20))) =~= buffer@.subrange(16, 20));
            assert(le32(un32(buffer@.subrange(20, 24))) =~= buffer@.subrange(20, 24));
            assert(le32(un32(buffer@.subrange(24, 28))) =~= buffer@.subrange(24, 28));
            assert(header_body(h) =~= buffer@.subrange(0, 24));
        }
        assert((&[116u8, 101u8, 108u8, 110u8, 101u8, 116u8])@ =~= tag());
    }
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl DataHeader :: fn load_header" ret=r
//@sub? /<R: Read \+ Seek>/ =>
//@sub? /source: &mut R/ => source: &mut DataFile
//@sub? /&mut (\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@spec
    requires old(source).wf(),
    ensures
        final(source).same_setup(*old(source)), final(source).bytes() == old(source).bytes(), final(source).data_file.bytes() == old(source).data_file.bytes(),
        old(source).healthy() ==> final(source).wf(),
        r is Ok ==> final(source).wf(),
        r matches Ok(h) ==> h.ours(uid_idx) && header_bytes(h).is_prefix_of(old(source).bytes()) && header_bytes(h).len() == 28 && final(source).seek_pos == 28,
        old(source).healthy() && (exists|h: DataHeader| h.ours(uid_idx) && #[trigger] header_bytes(h).is_prefix_of(old(source).bytes())) ==> r is Ok,
//@head
    proof {
        let b = source.bytes();
        assert forall|h: DataHeader| #[trigger] header_bytes(h).is_prefix_of(b) implies b.len() >= 28 && b.subrange(0, 28) =~= header_bytes(h) by { lemma_header(h); }
        assert forall|h: DataHeader| #[trigger] header_bytes(h).len() == 28 by { lemma_header(h); }
    }
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl DataHeader :: fn write_header" ret=r
//@sub? /<R: Write \+ Seek>/ =>
//@sub? /sync: &mut R/ => sync: &mut DataFile
//@sub? /buffer\[([^\]]*)\]\.copy_from_slice/ => buffer.as_mut_slice()[\1].copy_from_slice
//@spec
    requires old(sync).wf(), old(sync).bytes().len() < 0x1000_0000_0000_0000, self.type_id@ == tag(),
    ensures
        final(sync).same_setup(*old(sync)), final(sync).seek_pos == old(sync).seek_pos,
        old(sync).read_only ==> r is Err,
        r is Ok ==> final(sync).wf() && final(sync).bytes() =~= old(sync).bytes() + header_bytes(*self),
//@after /assert!\(\(pos\) == \(DATA_HEADER_BYTES\)\);/
    proof {
        lemma_header(*self);
        assert(buffer@.take(24) =~= header_body(*self));
        assert(buffer@ =~= buffer@.take(24) + buffer@.skip(24));
    }
//@end
}
//@item file=crates/storage/src/archive/pack.rs path="struct PackInner"
//@sub? /where\s+V: Debug \+ Serialize \+ DeserializeOwned,/ =>
//@end
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct PhantomData<T> { p: core::marker::PhantomData<T> }
impl<V> PackInner<V> {
    pub open spec fn wf(self) -> bool { self.data_file.wf() && self.data_file.read_only == self.read_only && self.data_file.bytes().len() < 0x1000_0000_0000_0000 }
    pub open spec fn bytes(self) -> Seq<u8> { self.data_file.bytes() }
    pub open spec fn comp(self) -> PackCompression { self.header.compression }
    pub open spec fn same(self, o: Self) -> bool { self.header == o.header && self.read_only == o.read_only && self.uid_idx == o.uid_idx && self.data_file.same_setup(o.data_file) }
    /// there is a readable record holding `v` at `at`, `n` bytes of payload
    pub open spec fn record(self, at: int, p: Seq<u8>, v: V) -> bool {
        framed_at(self.bytes(), at, p) && readable(self.comp(), p) && dec::<V>(opened(self.comp(), p)) == Some(v)
    }
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn open_data_file" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /path: P\b/ => path: &Path
//@spec
    ensures
        r matches Ok((f, h)) ==> f.wf() && f.read_only == ro && h.ours(uid_idx) && header_bytes(h).is_prefix_of(f.bytes()) && h.version <= version && h.appnum == 1
            && f.bytes().len() < 0x1000_0000_0000_1000,
//@head
    proof { assert forall|h: DataHeader| #[trigger] header_bytes(h).len() == 28 by { lemma_header(h); } }
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn file_len" ret=r
//@spec
    requires self.wf(),
    ensures r == self.bytes().len(),
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn copy_io_error" ret=r
//@spec
    ensures r.k == cause.k, r.text() == cause.text(),
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn failed_cause" ret=r
//@desugar opt.map_or
//@spec
    ensures self.failed is None <==> r is Ok,
        self.failed matches Some(c) ==> (r matches Err(e) && e.k == c.k && e.text() == c.text()),
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn append_inner" ret=r
//@spec
    requires old(self).wf(),
    ensures
        final(self).same(*old(self)), final(self).failed == old(self).failed,
        r is Err ==> r->Err_0 is WriteDataError,
        r matches Ok(at) ==> at == old(self).bytes().len() && final(self).data_file.wf()
            && exists|p: Seq<u8>| stored(old(self).comp(), p, *value) && p.len() < 0x1_0000_0000 && readable(old(self).comp(), p) && final(self).bytes() =~= old(self).bytes() + #[trigger] frame(p),
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn append" ret=r
//@desugar res.map_err
//@spec
    requires old(self).wf(),
    ensures
        final(self).same(*old(self)),
        old(self).read_only ==> r == Err::<u64, AppendError>(AppendError::ReadOnly) && *final(self) == *old(self),
        // while failed: a copy of the first cause, nothing changed
        !old(self).read_only && old(self).failed is Some ==> *final(self) == *old(self)
            && (r matches Err(AppendError::WriteDataError(e)) && e.k == old(self).failed->Some_0.k && e.text() == old(self).failed->Some_0.text()),
        r matches Err(AppendError::WriteDataError(e)) ==> (final(self).failed matches Some(c) && c.k == e.k && c.text() == e.text()),
        r is Ok ==> final(self).failed is None && old(self).failed is None,
        r is Err && old(self).failed is None && !old(self).read_only ==> r->Err_0 is WriteDataError,
        r matches Ok(at) ==> at == old(self).bytes().len() && final(self).data_file.wf() && exists|p: Seq<u8>| #[trigger] final(self).record(at as int, p, *value) && final(self).bytes() =~= old(self).bytes() + frame(p),
//@before /result\s*\}\s*$/
    proof {
        if result is Ok {
            let p = choose|p: Seq<u8>| stored(old(self).comp(), p, *value) && p.len() < 0x1_0000_0000 && readable(old(self).comp(), p) && self.bytes() =~= old(self).bytes() + #[trigger] frame(p);
            let at = old(self).bytes().len() as int;
            assert(frame(p).len() == p.len() + 8);
            assert(self.bytes().subrange(at, at + p.len() + 8) =~= frame(p));
            assert(self.record(at, p, *value));
        }
    }
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn flush" ret=r
//@desugar res.map_err
//@spec
    requires old(self).wf(),
    ensures
        final(self).same(*old(self)), final(self).failed == old(self).failed, final(self).value_buffer == old(self).value_buffer,
        r is Ok ==> final(self).wf() && final(self).bytes() =~= old(self).bytes() && final(self).data_file.data_file.bytes() =~= old(self).bytes(),
        old(self).data_file.healthy() ==> r is Ok,
        r is Err && old(self).data_file.cuttable() ==> final(self).wf() && final(self).bytes() =~= old(self).bytes(),
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn commit" ret=r
//@desugar res.map_err
//@spec
    requires old(self).wf(),
    ensures
        final(self).same(*old(self)), final(self).failed == old(self).failed,
        old(self).read_only ==> (r matches Err(CommitError::ReadOnly)) && *final(self) == *old(self),
        !old(self).read_only && old(self).failed is Some ==> *final(self) == *old(self)
            && (r matches Err(CommitError::Failed(e)) && e.k == old(self).failed->Some_0.k && e.text() == old(self).failed->Some_0.text()),
        // committed: every record is in the file
        r is Ok ==> final(self).wf() && final(self).bytes() =~= old(self).bytes() && final(self).data_file.data_file.bytes() =~= old(self).bytes(),
        !old(self).read_only && old(self).failed is None && old(self).data_file.healthy() ==> r is Ok,
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn read_record" ret=r
//@sub? /zstd::stream::read::Decoder::new\(/ => VxZDec::vx_new(
//@sub? /&mut (self\.\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@desugar res.map_err
//@spec
    requires old(self).wf(), position < 0x1000_0000_0000_0000,
    ensures
        final(self).same(*old(self)), final(self).failed == old(self).failed, final(self).bytes() == old(self).bytes(),
        old(self).data_file.healthy() ==> final(self).wf(),
        r is Ok ==> final(self).wf(),
        // what is returned is what the checksummed bytes at the position say
        r matches Ok(v) ==> exists|p: Seq<u8>| #[trigger] old(self).record(position as int, p, v),
        // and a record that is there is returned
        old(self).data_file.healthy() ==> forall|p: Seq<u8>, v: V| #[trigger] old(self).record(position as int, p, v) ==> r == Ok::<V, FetchError>(v),
//@head
    let ghost vx_b = self.bytes();
    proof {
        assert forall|p: Seq<u8>, v: V| #[trigger] self.record(position as int, p, v) implies position + 8 + p.len() <= vx_b.len() && declared(vx_b, position as int) == p.len()
            && p =~= vx_b.subrange(position + 4, position + 4 + p.len()) by { lemma_frame_p(vx_b, position as int, p); }
    }
//@after /let read_crc32 = [^;]*;/
    let ghost vx_p = self.value_buffer@;
    proof {
        lemma_frame(vx_b, position as int, val_size as int);
        assert(vx_p =~= vx_b.subrange(position + 4, position + 4 + val_size));
        assert(Seq::<u8>::empty() + val_size_buf@ =~= val_size_buf@);
        assert(vx_p.subrange(0, vx_p.len() as int) =~= vx_p);
    }
//@before /let val = /
    proof { assert(Seq::<u8>::empty() + zout(vx_p) =~= zout(vx_p)); assert(Seq::<u8>::empty() + zout(vx_p).take(MAX_RECORD_SIZE as int + 1) =~= zout(vx_p).take(MAX_RECORD_SIZE as int + 1)); }
//@before? /Ok\(val\)\s*\}\s*$/
    proof { assert(old(self).record(position as int, vx_p, val)); }
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn fetch" ret=r
//@spec
    requires old(self).wf(), pos < 0x1000_0000_0000_0000,
    ensures
        final(self).same(*old(self)), final(self).failed == old(self).failed, final(self).bytes() == old(self).bytes(),
        old(self).data_file.healthy() ==> final(self).wf(),
        r matches Ok(v) ==> exists|p: Seq<u8>| #[trigger] old(self).record(pos as int, p, v),
        old(self).data_file.healthy() ==> forall|p: Seq<u8>, v: V| #[trigger] old(self).record(pos as int, p, v) ==> r == Ok::<V, FetchError>(v),
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn record_size" ret=r
//@sub? /&mut (self\.\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@spec
    requires old(self).wf(), position < 0x1000_0000_0000_0000,
    ensures
        final(self).same(*old(self)), final(self).failed == old(self).failed, final(self).bytes() == old(self).bytes(),
        old(self).data_file.healthy() ==> final(self).wf(),
        r matches Ok(n) ==> exists|p: Seq<u8>| #[trigger] framed_at(old(self).bytes(), position as int, p) && n == p.len() + 8,
        old(self).data_file.healthy() ==> forall|p: Seq<u8>| #[trigger] framed_at(old(self).bytes(), position as int, p) && p.len() <= MAX_RECORD_SIZE ==> (r matches Ok(n) && n == p.len() + 8),
//@head
    let ghost vx_b = self.bytes();
    proof {
        assert forall|p: Seq<u8>| #[trigger] framed_at(vx_b, position as int, p) && p.len() <= MAX_RECORD_SIZE implies position + 8 + p.len() <= vx_b.len() && declared(vx_b, position as int) == p.len()
            && p =~= vx_b.subrange(position + 4, position + 4 + p.len()) by { lemma_frame_p(vx_b, position as int, p); }
    }
//@after /let read_crc32 = [^;]*;/
    proof {
        let vx_p = self.value_buffer@;
        lemma_frame(vx_b, position as int, val_size as int);
        assert(vx_p =~= vx_b.subrange(position + 4, position + 4 + val_size));
        assert(Seq::<u8>::empty() + val_size_buf@ =~= val_size_buf@);
    }
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn read_bytes" ret=r
//@sub? /vec!\[0; \(end_pos - start_pos\) as usize\]/ => vx_zeroed((end_pos - start_pos) as usize)
//@sub? /&mut (\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@spec
    requires old(self).wf(),
    ensures
        final(self).same(*old(self)), final(self).failed == old(self).failed, final(self).bytes() == old(self).bytes(),
        old(self).data_file.healthy() ==> final(self).wf(),
        start_pos > end_pos || end_pos > old(self).bytes().len() ==> r is Err,
        r matches Ok(b) ==> b@ =~= old(self).bytes().subrange(start_pos as int, end_pos as int),
        old(self).data_file.healthy() && start_pos <= end_pos <= old(self).bytes().len() ==> r is Ok,
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl PackInner :: fn truncate" ret=r
//@spec
    requires old(self).wf(), new_len < 0x1000_0000_0000_0000,
    ensures
        final(self).same(*old(self)), final(self).failed == old(self).failed,
        old(self).data_file.healthy() ==> r is Ok,
        r is Ok ==> final(self).wf() && final(self).bytes().len() == new_len
            && (new_len <= old(self).bytes().len() ==> final(self).bytes() =~= old(self).bytes().take(new_len as int)),
//@end
}
