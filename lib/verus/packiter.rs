//@known BufReader
/// there is a readable record holding `v` at `at`, with stored payload `p`
pub open spec fn rec_at<V>(c: PackCompression, b: Seq<u8>, at: int, p: Seq<u8>, v: V) -> bool {
    framed_at(b, at, p) && readable(c, p) && dec::<V>(opened(c, p)) == Some(v)
}

//@item file=crates/storage/src/archive/pack_iter.rs path="struct PackIter"
//@sub? /where\s+V: Debug \+ Serialize \+ DeserializeOwned,\s+R: \w+,/ =>
//@sub? /<V, R>/ => <V>
//@sub? /reader: BufReader<R>/ => reader: DataFile
//@sub? /reader: R\b/ => reader: DataFile
//@end
impl<V> PackIter<V> {
    pub open spec fn wf(self) -> bool { self.reader.wf() && self.reader.bytes().len() < 0x1000_0000_0000_0000 && self.reader.seek_pos < 0x1000_0000_0000_0000 }
//@fn file=crates/storage/src/archive/pack_iter.rs path="impl PackIter :: fn read_record_file" ret=r
//@sub? /<R2: Read \+ Seek>/ =>
//@sub? /file: &mut R2?\b/ => file: &mut DataFile
//@sub? /zstd::stream::read::Decoder::new\(/ => VxZDec::vx_new(
//@sub? /try_decode::<V>\(&buffer\[\.\.\]\)/ => try_decode::<V>(buffer.as_slice())
//@sub? /file\.read_exact\(buffer\)/ => file.read_exact(&mut buffer.as_mut_slice()[..])
//@desugar res.map_err
//@spec
    requires old(file).wf(), old(file).bytes().len() < 0x1000_0000_0000_0000, old(file).seek_pos < 0x1000_0000_0000_0000,
    ensures
        final(file).same_setup(*old(file)), final(file).bytes() == old(file).bytes(),
        old(file).healthy() ==> final(file).wf(),
        r is Ok ==> final(file).wf(),
        r matches Ok(v) ==> exists|p: Seq<u8>| #[trigger] rec_at::<V>(compression, old(file).bytes(), old(file).seek_pos as int, p, v) && final(file).seek_pos == old(file).seek_pos + p.len() + 8,
        old(file).healthy() ==> forall|p: Seq<u8>, v: V| #[trigger] rec_at::<V>(compression, old(file).bytes(), old(file).seek_pos as int, p, v) ==> r == Ok::<V, FetchError>(v),
        // "no more records" is said only when not even a length is left
        old(file).healthy() && (r matches Err(FetchError::NotFound)) ==> old(file).seek_pos + 4 > old(file).bytes().len(),
        old(file).healthy() && old(file).seek_pos + 4 > old(file).bytes().len() ==> (r matches Err(FetchError::NotFound)),
//@head
    let ghost vx_b = file.bytes();
    let ghost vx_at = file.seek_pos as int;
    proof {
        assert forall|p: Seq<u8>, v: V| #[trigger] rec_at::<V>(compression, vx_b, vx_at, p, v) implies vx_at + 8 + p.len() <= vx_b.len() && declared(vx_b, vx_at) == p.len()
            && p =~= vx_b.subrange(vx_at + 4, vx_at + 4 + p.len()) by { lemma_frame_p(vx_b, vx_at, p); }
    }
//@after /let read_crc32 = [^;]*;/
    let ghost vx_p = buffer@;
    proof {
        lemma_frame(vx_b, vx_at, val_size as int);
        assert(vx_p =~= vx_b.subrange(vx_at + 4, vx_at + 4 + val_size));
        assert(Seq::<u8>::empty() + val_size_buf@ =~= val_size_buf@);
        assert(vx_p.subrange(0, vx_p.len() as int) =~= vx_p);
        if calc_crc32 == read_crc32 && readable(compression, vx_p) && dec::<V>(opened(compression, vx_p)) is Some { assert(rec_at::<V>(compression, vx_b, vx_at, vx_p, dec::<V>(opened(compression, vx_p))->Some_0)); }
    }
//@tail vx_r
    proof { assert(buffer@.subrange(0, buffer@.len() as int) =~= buffer@); assert(Seq::<u8>::empty() + zout(vx_p) =~= zout(vx_p)); assert(Seq::<u8>::empty() + zout(vx_p).take(MAX_RECORD_SIZE as int + 1) =~= zout(vx_p).take(MAX_RECORD_SIZE as int + 1));
        assert(readable(compression, vx_p)); assert(buffer@ =~= opened(compression, vx_p)); assert(framed_at(vx_b, vx_at, vx_p)); assert(file.seek_pos == vx_at + vx_p.len() + 8);
        if dec::<V>(opened(compression, vx_p)) is Some { assert(rec_at::<V>(compression, vx_b, vx_at, vx_p, dec::<V>(opened(compression, vx_p))->Some_0)); }
        if vx_r is Ok { assert(rec_at::<V>(compression, vx_b, vx_at, vx_p, vx_r->Ok_0)); } }
//@end
//@fn file=crates/storage/src/archive/pack_iter.rs path="impl Iterator for PackIter :: fn next" ret=r
//@sub? /Self::Item/ => Result<V, FetchError>
//@spec
    requires old(self).wf(),
    ensures
        final(self).compression == old(self).compression, final(self).reader.same_setup(old(self).reader), final(self).reader.bytes() == old(self).reader.bytes(),
        r matches Some(Ok(v)) ==> final(self).wf() && exists|p: Seq<u8>| #[trigger] rec_at::<V>(old(self).compression, old(self).reader.bytes(), old(self).reader.seek_pos as int, p, v)
            && final(self).reader.seek_pos == old(self).reader.seek_pos + p.len() + 8,
        old(self).reader.healthy() ==> (r is None <==> old(self).reader.seek_pos + 4 > old(self).reader.bytes().len()),
        old(self).reader.healthy() ==> forall|p: Seq<u8>, v: V| #[trigger] rec_at::<V>(old(self).compression, old(self).reader.bytes(), old(self).reader.seek_pos as int, p, v) ==> r == Some(Ok::<V, FetchError>(v)),
//@end
}

//@item file=crates/storage/src/archive/pack_iter.rs path="struct AsyncPackIter"
//@sub? /where\s+V: Debug \+ Serialize \+ DeserializeOwned,\s+R: \w+,/ =>
//@sub? /<V, R>/ => <V>
//@sub? /reader: BufReader<R>/ => reader: DataFile
//@sub? /reader: R\b/ => reader: DataFile
//@end
impl<V> AsyncPackIter<V> {
    pub open spec fn wf(self) -> bool { self.reader.wf() && self.reader.bytes().len() < 0x1000_0000_0000_0000 && self.reader.seek_pos < 0x1000_0000_0000_0000 }
//@fn file=crates/storage/src/archive/pack_iter.rs path="impl AsyncPackIter :: fn read_record_file" ret=r async=drop
//@sub? /<R2: Read \+ Seek>/ =>
//@sub? /file: &mut R2?\b/ => file: &mut DataFile
//@sub? /zstd::stream::read::Decoder::new\(/ => VxZDec::vx_new(
//@sub? /try_decode::<V>\(&buffer\[\.\.\]\)/ => try_decode::<V>(buffer.as_slice())
//@sub? /file\.read_exact\(buffer\)/ => file.read_exact(&mut buffer.as_mut_slice()[..])
//@desugar res.map_err
//@spec
    requires old(file).wf(), old(file).bytes().len() < 0x1000_0000_0000_0000, old(file).seek_pos < 0x1000_0000_0000_0000,
    ensures
        final(file).same_setup(*old(file)), final(file).bytes() == old(file).bytes(),
        old(file).healthy() ==> final(file).wf(),
        r is Ok ==> final(file).wf(),
        r matches Ok(v) ==> exists|p: Seq<u8>| #[trigger] rec_at::<V>(compression, old(file).bytes(), old(file).seek_pos as int, p, v) && final(file).seek_pos == old(file).seek_pos + p.len() + 8,
        old(file).healthy() ==> forall|p: Seq<u8>, v: V| #[trigger] rec_at::<V>(compression, old(file).bytes(), old(file).seek_pos as int, p, v) ==> r == Ok::<V, FetchError>(v),
        // "no more records" is said only when not even a length is left
        old(file).healthy() && (r matches Err(FetchError::NotFound)) ==> old(file).seek_pos + 4 > old(file).bytes().len(),
        old(file).healthy() && old(file).seek_pos + 4 > old(file).bytes().len() ==> (r matches Err(FetchError::NotFound)),
//@head
    let ghost vx_b = file.bytes();
    let ghost vx_at = file.seek_pos as int;
    proof {
        assert forall|p: Seq<u8>, v: V| #[trigger] rec_at::<V>(compression, vx_b, vx_at, p, v) implies vx_at + 8 + p.len() <= vx_b.len() && declared(vx_b, vx_at) == p.len()
            && p =~= vx_b.subrange(vx_at + 4, vx_at + 4 + p.len()) by { lemma_frame_p(vx_b, vx_at, p); }
    }
//@after /let read_crc32 = [^;]*;/
    let ghost vx_p = buffer@;
    proof {
        lemma_frame(vx_b, vx_at, val_size as int);
        assert(vx_p =~= vx_b.subrange(vx_at + 4, vx_at + 4 + val_size));
        assert(Seq::<u8>::empty() + val_size_buf@ =~= val_size_buf@);
        assert(vx_p.subrange(0, vx_p.len() as int) =~= vx_p);
        if calc_crc32 == read_crc32 && readable(compression, vx_p) && dec::<V>(opened(compression, vx_p)) is Some { assert(rec_at::<V>(compression, vx_b, vx_at, vx_p, dec::<V>(opened(compression, vx_p))->Some_0)); }
    }
//@tail vx_r
    proof { assert(buffer@.subrange(0, buffer@.len() as int) =~= buffer@); assert(Seq::<u8>::empty() + zout(vx_p) =~= zout(vx_p)); assert(Seq::<u8>::empty() + zout(vx_p).take(MAX_RECORD_SIZE as int + 1) =~= zout(vx_p).take(MAX_RECORD_SIZE as int + 1));
        assert(readable(compression, vx_p)); assert(buffer@ =~= opened(compression, vx_p)); assert(framed_at(vx_b, vx_at, vx_p)); assert(file.seek_pos == vx_at + vx_p.len() + 8);
        if dec::<V>(opened(compression, vx_p)) is Some { assert(rec_at::<V>(compression, vx_b, vx_at, vx_p, dec::<V>(opened(compression, vx_p))->Some_0)); }
        if vx_r is Ok { assert(rec_at::<V>(compression, vx_b, vx_at, vx_p, vx_r->Ok_0)); } }
//@end
//@fn file=crates/storage/src/archive/pack_iter.rs path="impl AsyncPackIter :: fn next" ret=r async=drop
//@sub? /Self::Item/ => Result<V, FetchError>
//@spec
    requires old(self).wf(),
    ensures
        final(self).compression == old(self).compression, final(self).reader.same_setup(old(self).reader), final(self).reader.bytes() == old(self).reader.bytes(),
        r matches Some(Ok(v)) ==> final(self).wf() && exists|p: Seq<u8>| #[trigger] rec_at::<V>(old(self).compression, old(self).reader.bytes(), old(self).reader.seek_pos as int, p, v)
            && final(self).reader.seek_pos == old(self).reader.seek_pos + p.len() + 8,
        old(self).reader.healthy() ==> (r is None <==> old(self).reader.seek_pos + 4 > old(self).reader.bytes().len()),
        old(self).reader.healthy() ==> forall|p: Seq<u8>, v: V| #[trigger] rec_at::<V>(old(self).compression, old(self).reader.bytes(), old(self).reader.seek_pos as int, p, v) ==> r == Some(Ok::<V, FetchError>(v)),
//@end
}
