//@item file=crates/storage/src/archive/digest_index/index.rs path="const HEADER_SIZE"
//@end
//@item file=crates/storage/src/archive/digest_index/index.rs path="struct HdxHeader"
//@end
pub open spec fn ptag() -> Seq<u8> { seq![116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8] }
pub open spec fn hdx_a(h: HdxHeader) -> Seq<u8> { ptag() + le16(h.version) + le64(h.uid) + le32(h.appnum) + le32(h.buckets) }
pub open spec fn hdx_b(h: HdxHeader) -> Seq<u8> { le16(h.bucket_elements) + le16(h.bucket_size) + le64(h.salt) + le64(h.pepper) }
pub open spec fn hdx_c(h: HdxHeader) -> Seq<u8> { le16(h.load_factor) + le64(h.values) + le64(h.data_file_length) }
pub open spec fn hdx_body(h: HdxHeader) -> Seq<u8> { hdx_a(h) + hdx_b(h) + hdx_c(h) }
/// the 68 bytes a header is stored as
pub open spec fn hdx_bytes(h: HdxHeader) -> Seq<u8> { hdx_body(h) + le32(crc32(hdx_body(h))) }
pub open spec fn hdx_fields(b: Seq<u8>, h: HdxHeader) -> bool {
    &&& b.subrange(0, 8) =~= ptag()
    &&& un16(b.subrange(8, 10)) == h.version && un64(b.subrange(10, 18)) == h.uid && un32(b.subrange(18, 22)) == h.appnum && un32(b.subrange(22, 26)) == h.buckets
    &&& un16(b.subrange(26, 28)) == h.bucket_elements && un16(b.subrange(28, 30)) == h.bucket_size && un64(b.subrange(30, 38)) == h.salt && un64(b.subrange(38, 46)) == h.pepper
    &&& un16(b.subrange(46, 48)) == h.load_factor && un64(b.subrange(48, 56)) == h.values && un64(b.subrange(56, 64)) == h.data_file_length
}
pub proof fn lemma_hdx(h: HdxHeader)
    ensures hdx_bytes(h).len() == 68, hdx_body(h).len() == 64, stamped(hdx_bytes(h)), hdx_fields(hdx_bytes(h), h),
{
    let b = hdx_bytes(h);
    assert(b.subrange(8, 10) =~= le16(h.version));
    assert(b.subrange(10, 18) =~= le64(h.uid));
    assert(b.subrange(18, 22) =~= le32(h.appnum));
    assert(b.subrange(22, 26) =~= le32(h.buckets));
    assert(b.subrange(26, 28) =~= le16(h.bucket_elements));
    assert(b.subrange(28, 30) =~= le16(h.bucket_size));
    assert(b.subrange(30, 38) =~= le64(h.salt));
    assert(b.subrange(38, 46) =~= le64(h.pepper));
    assert(b.subrange(46, 48) =~= le16(h.load_factor));
    assert(b.subrange(48, 56) =~= le64(h.values));
    assert(b.subrange(56, 64) =~= le64(h.data_file_length));
    assert(b.skip(64) =~= le32(crc32(hdx_body(h))));
    assert(b.take(64) =~= hdx_body(h));
}
/// stamped bytes with a header's fields are that header's bytes
pub proof fn lemma_hdx_inv(b: Seq<u8>, h: HdxHeader)
    requires b.len() == 68, stamped(b), hdx_fields(b, h),
    ensures hdx_bytes(h) =~= b,
{
    assert(le16(h.version) =~= b.subrange(8, 10));
    assert(le64(h.uid) =~= b.subrange(10, 18));
    assert(le32(h.appnum) =~= b.subrange(18, 22));
    assert(le32(h.buckets) =~= b.subrange(22, 26));
    assert(le16(h.bucket_elements) =~= b.subrange(26, 28));
    assert(le16(h.bucket_size) =~= b.subrange(28, 30));
    assert(le64(h.salt) =~= b.subrange(30, 38));
    assert(le64(h.pepper) =~= b.subrange(38, 46));
    assert(le16(h.load_factor) =~= b.subrange(46, 48));
    assert(le64(h.values) =~= b.subrange(48, 56));
    assert(le64(h.data_file_length) =~= b.subrange(56, 64));
    assert(hdx_a(h) =~= b.subrange(0, 26));
    assert(hdx_b(h) =~= b.subrange(26, 46));
    assert(hdx_c(h) =~= b.subrange(46, 64));
    assert(hdx_body(h) =~= b.take(64));
    assert(b =~= b.take(64) + b.skip(64));
}
impl HdxHeader {
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn from_data_header" ret=r
//@sub? /<const KSIZE: usize, S: BuildHasher \+ Default>/ =>
//@sub? /\*b"telcoinx"/ => [116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8]
//@sub? /HdxIndex::<KSIZE, S>::/ =>
//@sub? /\(u16::MAX as f32 \* 0\.5\) as u16/ => vx_half()
//@spec
    ensures r.type_id@ =~= ptag(), r.version == data_header.version, r.uid == data_header.uid, r.appnum == data_header.appnum,
        r.bucket_elements == 32, r.bucket_size == 1296, r.buckets == INITIAL_BUCKETS, r.salt == salt, r.pepper == pepper, r.values == 0,
//@head
    proof { assert([116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8]@ =~= ptag()); }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn load_header" ret=r
//@sub? /&mut File\b/ => &mut PFile
//@sub? /&mut (\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@sub? /&(\w+)\[\.\.\]/ => \1.as_slice()
//@sub? /&type_id != b"telcoinx"/ => !vx_tag_eq(&type_id)
//@spec
    ensures
        final(hdx_file).bytes() == old(hdx_file).bytes(), final(hdx_file).same_os(*old(hdx_file)),
        r is Ok ==> final(hdx_file).pos() == 68,
        r matches Ok(h) ==> h.type_id@ =~= ptag() && hdx_bytes(h).len() == 68 && hdx_bytes(h).is_prefix_of(old(hdx_file).bytes()),
        old(hdx_file).healthy() && (exists|h: HdxHeader| #[trigger] hdx_bytes(h).is_prefix_of(old(hdx_file).bytes())) ==> r is Ok,
//@head
    let ghost vx_b = hdx_file.bytes();
    proof {
        assert forall|h: HdxHeader| #[trigger] hdx_bytes(h).is_prefix_of(vx_b) implies vx_b.len() >= 68 && stamped(vx_b.subrange(0, 68)) && vx_b.subrange(0, 68).subrange(0, 8) =~= ptag() by {
            lemma_hdx(h); assert(vx_b.subrange(0, 68) =~= hdx_bytes(h));
        }
    }
//@before? /Ok\(header\)/
    proof {
        assert(buffer@ =~= vx_b.subrange(0, 68));
        assert(type_id@ =~= buffer@.subrange(0, 8));
        lemma_hdx_inv(buffer@, header);
        lemma_hdx(header);
    }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn write_header" ret=r
//@sub? /&mut File\b/ => &mut PFile
//@sub? /vec!\[0_u8; header_size\]/ => vx_zeroed(header_size)
//@sub? /buffer\[([^\]]*)\]\.copy_from_slice/ => buffer.as_mut_slice()[\1].copy_from_slice
//@sub? /&mut (\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@spec
    requires old(self).type_id@ =~= ptag(),
    ensures
        *final(self) == *old(self), final(hdx_file).same_os(*old(hdx_file)), old(hdx_file).healthy() ==> r is Ok,
        outside(old(hdx_file).bytes(), final(hdx_file).bytes(), 0, 68), final(hdx_file).bytes().len() <= old(hdx_file).bytes().len() || final(hdx_file).bytes().len() <= 68,
        r is Ok ==> final(hdx_file).pos() == 68 && hdx_bytes(*old(self)).is_prefix_of(final(hdx_file).bytes()) && hdx_bytes(*old(self)).len() == 68,
//@before /hdx_file\.write_all/
    proof {
        lemma_hdx(*old(self));
        assert(hdx_fields(buffer@, *old(self))) by { assert(buffer@.subrange(0, 8) =~= ptag());
            assert(buffer@.subrange(8, 10) =~= le16(self.version));
            assert(buffer@.subrange(10, 18) =~= le64(self.uid));
            assert(buffer@.subrange(18, 22) =~= le32(self.appnum));
            assert(buffer@.subrange(22, 26) =~= le32(self.buckets));
            assert(buffer@.subrange(26, 28) =~= le16(self.bucket_elements));
            assert(buffer@.subrange(28, 30) =~= le16(self.bucket_size));
            assert(buffer@.subrange(30, 38) =~= le64(self.salt));
            assert(buffer@.subrange(38, 46) =~= le64(self.pepper));
            assert(buffer@.subrange(46, 48) =~= le16(self.load_factor));
            assert(buffer@.subrange(48, 56) =~= le64(self.values));
            assert(buffer@.subrange(56, 64) =~= le64(self.data_file_length)); }
        lemma_hdx_inv(buffer@, *old(self));
        assert(buffer@.subrange(0, 68) =~= buffer@);
    }
//@tail vx_r
    proof { assert(hdx_bytes(*old(self)).is_prefix_of(hdx_file.bytes())); }
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn header_size" ret=r
//@spec
    ensures r == 68,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn buckets" ret=r
//@spec
    ensures r == self.buckets,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn bucket_elements" ret=r
//@spec
    ensures r == self.bucket_elements,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn bucket_size" ret=r
//@spec
    ensures r == self.bucket_size,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn values" ret=r
//@spec
    ensures r == self.values,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn version" ret=r
//@spec
    ensures r == self.version,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn uid" ret=r
//@spec
    ensures r == self.uid,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn appnum" ret=r
//@spec
    ensures r == self.appnum,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn salt" ret=r
//@spec
    ensures r == self.salt,
//@end
//@fn file=crates/storage/src/archive/digest_index/index.rs path="impl HdxHeader :: fn pepper" ret=r
//@spec
    ensures r == self.pepper,
//@end
}
//@item file=crates/storage/src/archive/digest_index/odx_header.rs path="const MIN_HEADER_SIZE"
//@end
//@item file=crates/storage/src/archive/digest_index/odx_header.rs path="struct OdxHeader"
//@end
pub open spec fn odx_body(h: OdxHeader) -> Seq<u8> { ptag() + le16(h.version) + le64(h.uid) + le32(h.appnum) + seq![0u8, 0u8] }
pub open spec fn odx_bytes(h: OdxHeader) -> Seq<u8> { odx_body(h) + le32(crc32(odx_body(h))) }
pub proof fn lemma_odx(h: OdxHeader)
    ensures odx_bytes(h).len() == 28, odx_body(h).len() == 24, stamped(odx_bytes(h)), odx_bytes(h).subrange(0, 8) =~= ptag(),
        un16(odx_bytes(h).subrange(8, 10)) == h.version, un64(odx_bytes(h).subrange(10, 18)) == h.uid, un32(odx_bytes(h).subrange(18, 22)) == h.appnum,
{
    let b = odx_bytes(h);
    assert(b.subrange(8, 10) =~= le16(h.version));
    assert(b.subrange(10, 18) =~= le64(h.uid));
    assert(b.subrange(18, 22) =~= le32(h.appnum));
    assert(b.skip(24) =~= le32(crc32(odx_body(h))));
    assert(b.take(24) =~= odx_body(h));
}
/// these bytes start with a header of this identity
pub open spec fn odx_head(b: Seq<u8>, version: u16, uid: u64, appnum: u32) -> bool {
    b.len() >= 28 && stamped(b.take(28)) && b.subrange(0, 8) =~= ptag() && b.subrange(8, 10) =~= le16(version) && b.subrange(10, 18) =~= le64(uid) && b.subrange(18, 22) =~= le32(appnum)
}
impl OdxHeader {
//@fn file=crates/storage/src/archive/digest_index/odx_header.rs path="impl OdxHeader :: fn open_odx_file" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /path: P\b/ => path: PathBuf
//@sub? /let path = path\.as_ref\(\);/ => let path = path.as_path();
//@sub? /OpenOptions::new\(\)\.read\(true\)\.write\(false\)\.open\(path\)/ => File::vx_open(path)
//@sub? /OpenOptions::new\(\)\.read\(true\)\.append\(true\)\.create\(true\)\.open\(path\)/ => File::vx_open(path)
//@sub? /if let Some\(parent\) = path\.parent\(\) \{ let _ = fsync_directory\(parent\); \}/ =>
//@spec
    ensures
        // the file that is there if it has this identity, or a new one with only a header
        r matches Ok(x) ==> odx_head(x.0.bytes(), version, uid, appnum) && x.0.bytes().len() < 0x1000_0000_0000_0000
            && (if x.0.opened().len() > 0 { x.0.bytes() =~= x.0.opened() } else { x.0.bytes().len() == 28 && !read_only }),
//@after /header\.write_header\(&mut file\)\?;/
            proof {
                let b = odx_bytes(header); lemma_odx(header);
                assert(file.bytes() =~= b); assert(b.take(28) =~= b);
                assert(b.subrange(8, 10) =~= le16(version)); assert(b.subrange(10, 18) =~= le64(uid)); assert(b.subrange(18, 22) =~= le32(appnum));
            }
//@end
//@fn file=crates/storage/src/archive/digest_index/odx_header.rs path="impl OdxHeader :: fn new" ret=r
//@sub? /\*b"telcoinx"/ => [116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8]
//@spec
    ensures r.type_id@ =~= ptag(), r.version == version, r.uid == uid, r.appnum == appnum, r.header_size == 28, r.read_only == read_only,
//@head
    proof { assert([116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8]@ =~= ptag()); }
//@end
//@fn file=crates/storage/src/archive/digest_index/odx_header.rs path="impl OdxHeader :: fn load_header" ret=r
//@sub? /<R: Read \+ Seek>/ =>
//@sub? /source: &mut R\b/ => source: &mut File
//@sub? /vec!\[0_u8; header_size\]/ => vx_zeroed(header_size)
//@sub? /check_crc\(&buffer\)/ => check_crc(buffer.as_slice())
//@sub? /&mut (\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@sub? /&type_id != b"telcoinx"/ => !vx_tag_eq(&type_id)
//@spec
    ensures
        final(source).bytes() == old(source).bytes(), final(source).same_os(*old(source)),
        r matches Ok(h) ==> odx_head(old(source).bytes(), h.version, h.uid, h.appnum),
        // refused only for what is in the file (given a working disk)
        old(source).healthy() ==> (r is Ok <==> exists|v: u16, u: u64, a: u32| #[trigger] odx_head(old(source).bytes(), v, u, a)),
//@head
    let ghost vx_b = source.bytes();
    proof { assert forall|v: u16, u: u64, a: u32| #[trigger] odx_head(vx_b, v, u, a) implies vx_b.len() >= 28 && stamped(vx_b.subrange(0, 28)) && vx_b.subrange(0, 28).subrange(0, 8) =~= ptag() by {
        assert(vx_b.subrange(0, 28) =~= vx_b.take(28)); assert(vx_b.subrange(0, 28).subrange(0, 8) =~= vx_b.subrange(0, 8)); } }
//@before? /Ok\(header\)/
    proof {
        assert(buffer@ =~= vx_b.take(28));
        assert(vx_b.subrange(0, 8) =~= buffer@.subrange(0, 8));
        assert(vx_b.subrange(8, 10) =~= buffer@.subrange(8, 10));
        assert(vx_b.subrange(10, 18) =~= buffer@.subrange(10, 18));
        assert(vx_b.subrange(18, 22) =~= buffer@.subrange(18, 22));
        assert(odx_head(vx_b, header.version, header.uid, header.appnum));
    }
//@end
//@fn file=crates/storage/src/archive/digest_index/odx_header.rs path="impl OdxHeader :: fn write_header" ret=r
//@sub? /<R: Write \+ Seek>/ =>
//@sub? /sync: &mut R\b/ => sync: &mut File
//@sub? /vec!\[0_u8; self\.header_size\]/ => vx_zeroed(self.header_size)
//@sub? /add_crc32\(&mut buffer\)/ => add_crc32(buffer.as_mut_slice())
//@sub? /write_all\(&buffer\)/ => write_all(buffer.as_slice())
//@sub? /buffer\[([^\]]*)\]\.copy_from_slice/ => buffer.as_mut_slice()[\1].copy_from_slice
//@spec
    requires self.type_id@ =~= ptag(), self.header_size == 28,
    ensures
        final(sync).same_os(*old(sync)), old(sync).healthy() && !self.read_only ==> r is Ok,
        r is Ok ==> !self.read_only && final(sync).bytes() =~= old(sync).bytes() + odx_bytes(*self),
//@before /sync\.write_all/
    proof {
        lemma_odx(*self);
        assert(buffer@.take(24) =~= odx_body(*self));
        assert(buffer@ =~= buffer@.take(24) + buffer@.skip(24));
    }
//@end
//@fn file=crates/storage/src/archive/digest_index/odx_header.rs path="impl OdxHeader :: fn version" ret=r
//@spec
    ensures r == self.version,
//@end
//@fn file=crates/storage/src/archive/digest_index/odx_header.rs path="impl OdxHeader :: fn uid" ret=r
//@spec
    ensures r == self.uid,
//@end
//@fn file=crates/storage/src/archive/digest_index/odx_header.rs path="impl OdxHeader :: fn appnum" ret=r
//@spec
    ensures r == self.appnum,
//@end
}
