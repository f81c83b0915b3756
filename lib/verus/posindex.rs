//@known fs
//@item file=crates/storage/src/archive/position_index/index.rs path="const PDX_HEADER_SIZE"
//@end
//@item file=crates/storage/src/archive/position_index/index.rs path="const VALUE_MAX_BYTES"
//@end
//@item file=crates/storage/src/archive/position_index/index.rs path="struct PdxHeader"
//@end
pub open spec fn ptag() -> Seq<u8> { seq![116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8] }
pub open spec fn pdx_body(h: PdxHeader) -> Seq<u8> { ptag() + le16(h.version) + le64(h.uid) + le32(h.appnum) }
pub open spec fn pdx_bytes(h: PdxHeader) -> Seq<u8> { pdx_body(h) + le32(crc32(pdx_body(h))) }
pub proof fn lemma_pdx(h: PdxHeader)
    ensures pdx_bytes(h).len() == 26, pdx_body(h).len() == 22, stamped(pdx_bytes(h)),
        pdx_bytes(h).subrange(0, 8) =~= ptag(),
        un16(pdx_bytes(h).subrange(8, 10)) == h.version, un64(pdx_bytes(h).subrange(10, 18)) == h.uid, un32(pdx_bytes(h).subrange(18, 22)) == h.appnum,
{
    let b = pdx_bytes(h);
    assert(b.subrange(8, 10) =~= le16(h.version));
    assert(b.subrange(10, 18) =~= le64(h.uid));
    assert(b.subrange(18, 22) =~= le32(h.appnum));
    assert(b.skip(22) =~= le32(crc32(pdx_body(h))));
    assert(b.take(22) =~= pdx_body(h));
}
impl PdxHeader {
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PdxHeader :: fn from_data_header" ret=r
//@sub? /type_id: \*\(&\[[^\]]*\]\)/ => type_id: [116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8]
//@spec
    ensures r.type_id@ =~= ptag(), r.version == data_header.version, r.uid == data_header.uid, r.appnum == data_header.appnum,
//@head
    proof { assert([116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8]@ =~= ptag()); }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PdxHeader :: fn version" ret=r
//@spec
    ensures r == self.version,
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PdxHeader :: fn uid" ret=r
//@spec
    ensures r == self.uid,
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PdxHeader :: fn appnum" ret=r
//@spec
    ensures r == self.appnum,
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PdxHeader :: fn load_header" ret=r
//@sub? /&mut (\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@spec
    requires old(hdx_file).wf(),
    ensures
        final(hdx_file).same_setup(*old(hdx_file)), final(hdx_file).bytes() == old(hdx_file).bytes(), final(hdx_file).data_file.bytes() == old(hdx_file).data_file.bytes(),
        r is Ok || old(hdx_file).healthy() ==> final(hdx_file).wf(),
        r matches Ok(h) ==> h.type_id@ =~= ptag() && pdx_bytes(h).is_prefix_of(old(hdx_file).bytes()) && pdx_bytes(h).len() == 26,
        old(hdx_file).healthy() && (exists|h: PdxHeader| #[trigger] pdx_bytes(h).is_prefix_of(old(hdx_file).bytes())) ==> r is Ok,
//@head
    let ghost vx_b = hdx_file.bytes();
    proof {
        assert forall|h: PdxHeader| #[trigger] pdx_bytes(h).is_prefix_of(vx_b) implies vx_b.len() >= 26 && stamped(vx_b.subrange(0, 26)) && vx_b.subrange(0, 26).subrange(0, 8) =~= ptag() by {
            lemma_pdx(h); assert(vx_b.subrange(0, 26) =~= pdx_bytes(h));
        }
        assert((&[116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8])@ =~= ptag());
    }
//@before? /Ok\(header\)/
    proof {
        lemma_pdx(header);
        let b = buffer@;
        assert(b =~= vx_b.subrange(0, 26));
        assert(header.type_id@ =~= (&[116u8, 101u8, 108u8, 99u8, 111u8, 105u8, 110u8, 120u8])@);
        assert(header.type_id@ =~= ptag());
        assert(le16(un16(b.subrange(8, 10))) =~= b.subrange(8, 10));
        assert(le64(un64(b.subrange(10, 18))) =~= b.subrange(10, 18));
        assert(le32(un32(b.subrange(18, 22))) =~= b.subrange(18, 22));
        assert(b.take(22) =~= b.subrange(0, 8) + b.subrange(8, 10) + b.subrange(10, 18) + b.subrange(18, 22));
        assert(pdx_body(header) =~= b.take(22));
        assert(b =~= b.take(22) + b.skip(22));
        assert(pdx_bytes(header) =~= b);
    }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PdxHeader :: fn write_header" ret=r
//@sub? /buffer\[([^\]]*)\]\.copy_from_slice/ => buffer.as_mut_slice()[\1].copy_from_slice
//@sub? /&mut (\w+)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@spec
    requires old(hdx_file).wf(), old(hdx_file).bytes().len() < 0x1000_0000_0000_0000, old(self).type_id@ == ptag(),
    ensures
        *final(self) == *old(self), final(hdx_file).same_setup(*old(hdx_file)),
        r is Ok ==> final(hdx_file).wf() && final(hdx_file).bytes() =~= old(hdx_file).bytes() + pdx_bytes(*old(self)),
//@before /hdx_file\.write_all/
    proof {
        lemma_pdx(*old(self));
        assert(buffer@.take(22) =~= pdx_body(*old(self)));
        assert(buffer@ =~= buffer@.take(22) + buffer@.skip(22));
        assert(buffer@.subrange(0, 26) =~= buffer@);
    }
//@end
}
// ---- values of a fixed width
pub trait PosIndexValue: Sized {
    /// the stored form
    spec fn val(&self) -> Seq<u8>;
    spec fn width() -> nat;
    proof fn law() ensures 0 < Self::width() <= 32, forall|x: Self| (#[trigger] x.val()).len() == Self::width(), forall|x: Self, y: Self| #![trigger x.val(), y.val()] x.val() == y.val() ==> x == y;
    fn encode(&self, buffer: &mut [u8])
        requires old(buffer)@.len() == Self::width(),
        ensures final(buffer)@ =~= self.val();
    fn decode(bytes: &[u8]) -> (r: Result<Self, FetchError>)
        requires bytes@.len() == Self::width(),
        ensures
            r matches Ok(v) ==> v.val() =~= bytes@,
            forall|v: Self| #[trigger] v.val() =~= bytes@ ==> r == Ok::<Self, FetchError>(v);
    fn buffer_len() -> (r: usize)
        ensures r == Self::width();
}
impl PosIndexValue for u64 {
    open spec fn val(&self) -> Seq<u8> { le64(*self) }
    open spec fn width() -> nat { 8 }
    proof fn law() {}
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PosIndexValue for u64 :: fn encode" trait
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PosIndexValue for u64 :: fn decode" trait ret=r
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PosIndexValue for u64 :: fn buffer_len" trait ret=r
//@end
}
impl PosIndexValue for (u64, u64) {
    open spec fn val(&self) -> Seq<u8> { le64(self.0) + le64(self.1) }
    open spec fn width() -> nat { 16 }
    proof fn law() {
        assert forall|x: (u64, u64), y: (u64, u64)| #![trigger x.val(), y.val()] x.val() == y.val() implies x == y by {
            assert(x.val().subrange(0, 8) =~= le64(x.0)); assert(y.val().subrange(0, 8) =~= le64(y.0));
            assert(x.val().subrange(8, 16) =~= le64(x.1)); assert(y.val().subrange(8, 16) =~= le64(y.1));
        }
    }
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PosIndexValue for (u64, u64) :: fn encode" trait
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PosIndexValue for (u64, u64) :: fn decode" trait ret=r
//@tail vx_r
    proof {
        let v = (one, two);
        assert(le64(one) =~= bytes@.subrange(0, 8)); assert(le64(two) =~= bytes@.subrange(8, 16));
        assert(v.val() =~= bytes@);
        Self::law();
    }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PosIndexValue for (u64, u64) :: fn buffer_len" trait ret=r
//@end
}
//@item file=crates/storage/src/consensus_pack.rs path="struct IndexPositions"
//@attr
#[derive(Clone, Copy)]
//@end
impl PosIndexValue for IndexPositions {
    open spec fn val(&self) -> Seq<u8> { let b = le64(self.consensus_header) + le64(self.output_start) + le64(self.output_end); b + le32(crc32(b)) }
    open spec fn width() -> nat { 28 }
    proof fn law() {
        assert forall|x: Self, y: Self| #![trigger x.val(), y.val()] x.val() == y.val() implies x == y by {
            assert(x.val().subrange(0, 8) =~= le64(x.consensus_header)); assert(y.val().subrange(0, 8) =~= le64(y.consensus_header));
            assert(x.val().subrange(8, 16) =~= le64(x.output_start)); assert(y.val().subrange(8, 16) =~= le64(y.output_start));
            assert(x.val().subrange(16, 24) =~= le64(x.output_end)); assert(y.val().subrange(16, 24) =~= le64(y.output_end));
        }
    }
//@fn file=crates/storage/src/consensus_pack.rs path="impl PosIndexValue for IndexPositions :: fn encode" trait
//@sub? /let mut crc32_hasher/ => let ghost vx_n = buffer@.len(); let mut crc32_hasher
//@before /buffer\[24\.\.28\]/
    proof {
        let b = le64(self.consensus_header) + le64(self.output_start) + le64(self.output_end);
        assert(buffer@.subrange(0, 24) =~= b); assert(Seq::<u8>::empty() + b =~= b);
    }
//@end
//@fn file=crates/storage/src/consensus_pack.rs path="impl PosIndexValue for IndexPositions :: fn decode" trait ret=r
//@head
    proof {
        assert forall|v: Self| #[trigger] v.val() =~= bytes@ implies un32(bytes@.subrange(24, 28)) == crc32(bytes@.subrange(0, 24)) by {
            assert(v.val().subrange(24, 28) =~= le32(crc32(v.val().subrange(0, 24)))) by { assert(v.val().subrange(0, 24) =~= le64(v.consensus_header) + le64(v.output_start) + le64(v.output_end)); }
        }
        assert(Seq::<u8>::empty() + bytes@.subrange(0, 24) =~= bytes@.subrange(0, 24));
    }
//@tail vx_r
    proof {
        let v = Self { consensus_header, output_start, output_end };
        assert(le64(consensus_header) =~= bytes@.subrange(0, 8)); assert(le64(output_start) =~= bytes@.subrange(8, 16)); assert(le64(output_end) =~= bytes@.subrange(16, 24));
        assert(le32(un32(bytes@.subrange(24, 28))) =~= bytes@.subrange(24, 28));
        assert(bytes@.subrange(0, 24) =~= bytes@.subrange(0, 8) + bytes@.subrange(8, 16) + bytes@.subrange(16, 24));
        assert(v.val() =~= bytes@);
        Self::law();
    }
//@end
//@fn file=crates/storage/src/consensus_pack.rs path="impl PosIndexValue for IndexPositions :: fn buffer_len" trait ret=r
//@end
}
//@item file=crates/storage/src/archive/position_index/index.rs path="struct PositionIndex"
//@end
//@item file=crates/storage/src/archive/position_index/index.rs path="struct PositionIter"
//@end
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct PhantomData<T> { p: core::marker::PhantomData<T> }
/// the k-th stored value of width w after the header
pub open spec fn cell(b: Seq<u8>, k: int, w: int) -> Seq<u8> { b.subrange(26 + k * w, 26 + k * w + w) }
pub open spec fn piece(d: Seq<u8>, k: int, w: int) -> Seq<u8> { d.subrange(k * w, k * w + w) }
pub proof fn lemma_cells(len: int, w: int, k: int)
    requires w > 0, 0 <= k, len >= 26,
    ensures
        ({ let n = (len - 26) / w; n >= 0 && n * w <= len - 26 < n * w + w && (k < n ==> 26 + k * w + w <= len) && (k >= n ==> 26 + k * w + w > len)
            && ((len - 26) % w == 0 ==> 26 + n * w == len) && 26 + k * w >= 26 && (k + 1) * w == k * w + w
            && ((len - 26) % w == 0 <==> 26 + n * w == len) && (len + w - 26) / w == n + 1 && ((len - 26) % w == 0 ==> (len + w - 26) % w == 0) }),
{
    let n = (len - 26) / w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len - 26, w);
    assert(w * n == n * w) by (nonlinear_arith);
    assert(k < n ==> k * w + w <= n * w) by (nonlinear_arith) requires w > 0;
    assert(k >= n ==> k * w >= n * w) by (nonlinear_arith) requires w > 0;
    assert(k * w >= 0) by (nonlinear_arith) requires w > 0, k >= 0;
    assert((k + 1) * w == k * w + w) by (nonlinear_arith);
    assert(n >= 0) by (nonlinear_arith) requires w > 0, len - 26 >= 0, n == (len - 26) / w;
    assert(n * w + w == (n + 1) * w) by (nonlinear_arith);
    let r = (len - 26) % w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(len + w - 26, w, n + 1, r);
}
pub proof fn lemma_mul_div(k: int, w: int)
    requires w > 0,
    ensures (k * w) / w == k, (k * w) % w == 0,
{
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, w);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, w);
    assert(w * k == k * w) by (nonlinear_arith);
}
/// the bytes of the first and of the last m values
pub proof fn lemma_spans(b: Seq<u8>, w: int, m: int)
    requires w > 0, b.len() >= 26, (b.len() - 26) % w == 0, 0 <= m <= (b.len() - 26) / w,
    ensures
        0 <= m * w <= b.len() - 26, (m * w) % w == 0, (m * w) / w == m,
        forall|k: int| 0 <= k < m ==> #[trigger] piece(b.subrange(26, 26 + m * w), k, w) =~= cell(b, k, w),
        forall|k: int| 0 <= k < m ==> #[trigger] piece(b.subrange(b.len() - m * w, b.len() as int), k, w) =~= cell(b, (b.len() - 26) / w - m + k, w),
{
    let n = (b.len() - 26) / w;
    lemma_cells(b.len() as int, w, m);
    lemma_mul_div(m, w);
    assert(m * w <= n * w) by (nonlinear_arith) requires m <= n, w > 0;
    let h = b.subrange(26, 26 + m * w);
    let t = b.subrange(b.len() - m * w, b.len() as int);
    assert forall|k: int| 0 <= k < m implies #[trigger] piece(h, k, w) =~= cell(b, k, w) by {
        assert(0 <= k * w && k * w + w <= m * w) by (nonlinear_arith) requires 0 <= k < m, w > 0;
    }
    assert forall|k: int| 0 <= k < m implies #[trigger] piece(t, k, w) =~= cell(b, n - m + k, w) by {
        assert(0 <= k * w && k * w + w <= m * w) by (nonlinear_arith) requires 0 <= k < m, w > 0;
        assert((n - m + k) * w == n * w - m * w + k * w) by (nonlinear_arith);
    }
}
pub proof fn lemma_pieces(len: int, w: int, k: int)
    requires w > 0, 0 <= k, len % w == 0, len >= 0, k * w < len,
    ensures k * w + w <= len, k < len / w, (k + 1) * w == k * w + w, k * w + w < len <==> k + 1 < len / w, (len / w) * w == len, k > 0 ==> k * w - w == (k - 1) * w && k * w >= w, k * w >= 0,
{
    let n = len / w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len, w);
    assert(w * n == n * w) by (nonlinear_arith);
    assert(k < n) by (nonlinear_arith) requires k * w < n * w, w > 0;
    assert(k * w + w <= n * w) by (nonlinear_arith) requires k < n, w > 0;
    assert((k + 1) * w == k * w + w) by (nonlinear_arith);
    assert((k - 1) * w == k * w - w) by (nonlinear_arith);
    assert(k > 0 ==> k * w >= w) by (nonlinear_arith) requires w > 0, k >= 0;
    assert(k * w >= 0) by (nonlinear_arith) requires w > 0, k >= 0;
    assert(k + 1 < n ==> (k + 1) * w < n * w) by (nonlinear_arith) requires w > 0;
    assert((k + 1) * w < n * w ==> k + 1 < n) by (nonlinear_arith) requires w > 0;
}
#[verifier::external_body]
pub fn vx_text() -> String { unimplemented!() }
impl<T: PosIndexValue> PositionIndex<T> {
    pub open spec fn bytes(self) -> Seq<u8> { self.pdx_file.bytes() }
    /// number of values stored
    pub open spec fn n(self) -> int { (self.bytes().len() - 26) / (T::width() as int) }
    pub open spec fn wf(self) -> bool {
        &&& self.pdx_file.wf() && 26 <= self.bytes().len() < 0x1000_0000_0000_0000
        &&& (self.bytes().len() - 26) % (T::width() as int) == 0
    }
    pub open spec fn at(self, k: int) -> Seq<u8> { cell(self.bytes(), k, T::width() as int) }
    pub open spec fn quiet(self, o: Self) -> bool { self.bytes() == o.bytes() && self.pdx_file.same_setup(o.pdx_file) && (self.pdx_file.healthy() ==> self.wf()) }
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIndex :: fn open_pdx_file" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /dir: P\b/ => dir: &Path
//@sub? /let dir = dir\.as_ref\(\);/ =>
//@sub? /debug_assert!\([^;]*;/ =>
//@sub? /let dir_created = fs::create_dir\(dir\)\.is_ok\(\); if dir_created \{ if let Some\(parent\) = dir\.parent\(\) \{ let _ = fsync_directory\(parent\); \} \}/ =>
//@sub? /let _ = fsync_directory\(dir\);/ =>
//@sub? /DataFile::open\(dir\.join\(file_name\), read_only\)/ => DataFile::open(dir.vx_join(file_name).as_path(), read_only)
//@sub? /_phantom: PhantomData/ => _phantom: vx_phantom()
//@sub? /!(\w+)\.is_multiple_of\((\w+)\)/ => \1 % \2 != 0
//@spec
    ensures
        // what is opened is a whole number of values after a header that belongs to the data file
        r matches Ok(x) ==> x.wf() && x.pdx_file.read_only == read_only && exists|h: PdxHeader| #[trigger] pdx_bytes(h).is_prefix_of(x.bytes()) && h.version == data_header.version && h.uid == data_header.uid && h.appnum == data_header.appnum,
//@head
    proof { T::law(); assert forall|h: PdxHeader| #[trigger] pdx_bytes(h).len() == 26 by { lemma_pdx(h); } }
//@before /let mut index =/
    let ghost vx_h = header;
    proof { assert(pdx_bytes(vx_h).is_prefix_of(pdx_file.bytes())); lemma_cells(pdx_file.bytes().len() as int, T::width() as int, 0); }
//@before? /let aligned =/
    proof { let w = T::width() as int; let n = (index.bytes().len() - 26) / w; assert(n * w <= index.bytes().len()); assert(n * w == w * n) by (nonlinear_arith); }
//@tail vx_r
    proof { let w = T::width() as int; let n0 = (index.bytes().len() - 26) / w; assert(pdx_bytes(vx_h).is_prefix_of(index.bytes())); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(index.bytes().len() - 26, w);
        assert forall|n: int| #![trigger n * w] w > 0 && n >= 0 implies (n * w) % w == 0 by { lemma_mul_div(n, w);} }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIndex :: fn len" ret=r
//@spec
    requires self.pdx_file.wf(), 26 <= self.bytes().len(),
    ensures r == self.n(), r >= 0,
//@head
    proof { T::law(); lemma_cells(self.bytes().len() as int, T::width() as int, 0); }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIndex :: fn is_empty" ret=r
//@spec
    requires self.pdx_file.wf(), 26 <= self.bytes().len(),
    ensures r == (self.n() == 0),
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIndex :: fn iter" ret=r
//@sub? /std::io::/ => io::
//@sub? /vec!\[0_u8; data_len \* buffer_len\]/ => vx_zeroed(data_len * buffer_len)
//@spec
    requires old(self).wf(),
    ensures
        final(self).quiet(*old(self)),
        old(self).pdx_file.healthy() ==> r is Ok,
        // the first min(len, n) values, in order
        r matches Ok(x) ==> x.wf() && !x.reverse && x.count() == (if len < old(self).n() { len as int } else { old(self).n() })
            && forall|k: int| 0 <= k < x.count() ==> x.nth(k) =~= #[trigger] old(self).at(k),
//@head
    proof { T::law(); let w = T::width() as int; lemma_cells(self.bytes().len() as int, w, 0); lemma_cells(self.bytes().len() as int, w, (if len < self.n() { len as int } else { self.n() }));
        lemma_spans(self.bytes(), w, (if len < self.n() { len as int } else { self.n() })); }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIndex :: fn rev_iter" ret=r
//@sub? /std::io::/ => io::
//@sub? /vec!\[0_u8; data_len \* buffer_len\]/ => vx_zeroed(data_len * buffer_len)
//@spec
    requires old(self).wf(),
    ensures
        final(self).quiet(*old(self)),
        old(self).pdx_file.healthy() ==> r is Ok,
        // the last min(len, n) values, newest first
        r matches Ok(x) ==> x.wf() && x.reverse && x.count() == (if len < old(self).n() { len as int } else { old(self).n() })
            && forall|k: int| 0 <= k < x.count() ==> x.nth(k) =~= #[trigger] old(self).at(old(self).n() - 1 - k),
//@head
    proof { T::law(); let w = T::width() as int; lemma_cells(self.bytes().len() as int, w, 0); lemma_cells(self.bytes().len() as int, w, (if len < self.n() { len as int } else { self.n() }));
        lemma_spans(self.bytes(), w, (if len < self.n() { len as int } else { self.n() })); }
//@before? /Ok\(/
    proof { let w = T::width() as int; let m = (if len < old(self).n() { len as int } else { old(self).n() }); let b = old(self).bytes();
        assert(data@ =~= b.subrange(b.len() - m * w, b.len() as int)); }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIndex :: fn truncate_to_index" ret=r
//@spec
    requires old(self).wf(),
    ensures
        final(self).pdx_file.same_setup(old(self).pdx_file),
        old(self).pdx_file.healthy() ==> r is Ok,
        key as int >= old(self).n() ==> r is Ok && final(self).bytes() == old(self).bytes() && final(self).wf(),
        r is Ok && key < old(self).n() ==> final(self).wf() && final(self).n() == key + 1 && final(self).bytes() =~= old(self).bytes().take(26 + (key + 1) * (T::width() as int)),
//@head
    proof { T::law(); let w = T::width() as int; lemma_cells(self.bytes().len() as int, w, key as int);
        lemma_mul_div(key + 1, w); }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIndex :: fn truncate_all" ret=r
//@spec
    requires old(self).wf(),
    ensures
        final(self).pdx_file.same_setup(old(self).pdx_file),
        old(self).pdx_file.healthy() ==> r is Ok,
        r is Ok ==> final(self).wf() && final(self).n() == 0 && final(self).bytes() =~= old(self).bytes().take(26),
//@head
    proof { T::law(); let w = T::width() as int; lemma_mul_div(0, w); }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl Index<u64, T> for PositionIndex :: fn save" ret=r
//@sub? /format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => vx_text()
//@sub? /&mut buffer\[([^\]]*)\]/ => &mut buffer.as_mut_slice()[\1]
//@spec
    requires old(self).wf(), old(self).bytes().len() < 0x0fff_ffff_ffff_0000,
    ensures
        final(self).pdx_file.same_setup(old(self).pdx_file),
        // only the next position is accepted, and it appends exactly that value
        key as int != old(self).n() ==> r is Err && final(self).bytes() == old(self).bytes() && final(self).wf(),
        r is Ok ==> final(self).wf() && final(self).bytes() =~= old(self).bytes() + value.val() && final(self).n() == old(self).n() + 1 && final(self).at(key as int) =~= value.val(),
        r is Ok ==> forall|k: int| 0 <= k < old(self).n() ==> #[trigger] final(self).at(k) =~= old(self).at(k),
        old(self).pdx_file.healthy() && !old(self).pdx_file.read_only && key as int == old(self).n() ==> r is Ok,
        old(self).pdx_file.read_only ==> r is Err && final(self).bytes() == old(self).bytes(),
        // a save the disk refuses leaves the index as it was
        r is Err && old(self).pdx_file.cuttable() ==> final(self).wf() && final(self).bytes() =~= old(self).bytes(),
//@head
    proof { T::law(); let w = T::width() as int; lemma_cells(self.bytes().len() as int, w, 0);
        assert(value.val().len() == w);
        assert forall|a: int, k: int| #![trigger a * w, k * w] 0 <= k < a implies 0 <= k * w && k * w + w <= a * w by { assert(0 <= k * w && k * w + w <= a * w) by (nonlinear_arith) requires 0 <= k < a, w > 0; } }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl Index<u64, T> for PositionIndex :: fn load" ret=r
//@sub? /&mut buf\[([^\]]*)\]/ => &mut buf.as_mut_slice()[\1]
//@spec
    requires old(self).wf(),
    ensures
        final(self).quiet(*old(self)),
        key as int >= old(self).n() ==> r is Err,
        r matches Ok(v) ==> key < old(self).n() && v.val() =~= old(self).at(key as int),
        old(self).pdx_file.healthy() && key < old(self).n() ==> forall|v: T| #[trigger] v.val() =~= old(self).at(key as int) ==> r == Ok::<T, FetchError>(v),
//@head
    proof { T::law(); let w = T::width() as int; lemma_cells(self.bytes().len() as int, w, key as int); }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl Index<u64, T> for PositionIndex :: fn sync" ret=r
//@desugar res.map_err
//@spec
    requires old(self).wf(),
    ensures
        final(self).pdx_file.same_setup(old(self).pdx_file),
        r is Ok ==> final(self).wf() && final(self).bytes() =~= old(self).bytes() && final(self).pdx_file.data_file.bytes() =~= old(self).bytes(),
        old(self).pdx_file.healthy() ==> r is Ok,
        r is Err && old(self).pdx_file.cuttable() ==> final(self).wf() && final(self).bytes() =~= old(self).bytes(),
//@end
}
#[verifier::external_body]
pub fn vx_phantom<T>() -> PhantomData<T> { unimplemented!() }
impl<T: PosIndexValue> PositionIter<T> {
    pub open spec fn w() -> int { T::width() as int }
    pub open spec fn wf(self) -> bool {
        &&& self.data@.len() % (T::width()) == 0 && self.data@.len() < 0x1000_0000_0000_0000
        &&& !self.done ==> self.pos < self.data@.len() && self.pos as int % Self::w() == 0
    }
    /// values still to come
    pub open spec fn count(self) -> int { if self.done { 0 } else if self.reverse { self.pos as int / Self::w() + 1 } else { (self.data@.len() - self.pos) / Self::w() } }
    /// the k-th value still to come
    pub open spec fn nth(self, k: int) -> Seq<u8> { let i = self.pos as int / Self::w(); piece(self.data@, if self.reverse { i - k } else { i + k }, Self::w()) }
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIter :: fn new" ret=r
//@sub? /_phantom: PhantomData/ => _phantom: vx_phantom()
//@spec
    requires data@.len() % T::width() == 0, data@.len() < 0x1000_0000_0000_0000,
    ensures r.wf(), !r.reverse, r.count() == data@.len() as int / Self::w(), forall|k: int| 0 <= k < r.count() ==> #[trigger] r.nth(k) == piece(data@, k, Self::w()),
//@head
    proof { T::law(); let w = T::width() as int; lemma_mul_div(0, w); }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl PositionIter :: fn new_rev" ret=r
//@sub? /_phantom: PhantomData/ => _phantom: vx_phantom()
//@spec
    requires data@.len() % T::width() == 0, data@.len() < 0x1000_0000_0000_0000,
    ensures r.wf(), r.reverse, r.count() == data@.len() as int / Self::w(), forall|k: int| 0 <= k < r.count() ==> #[trigger] r.nth(k) == piece(data@, data@.len() as int / Self::w() - 1 - k, Self::w()),
//@head
    proof { T::law(); let w = T::width() as int; let n = data@.len() as int / w; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(data@.len() as int, w);
        assert(w * n == n * w) by (nonlinear_arith); assert((n - 1) * w == n * w - w) by (nonlinear_arith);
        if n > 0 { lemma_mul_div(n - 1, w); assert(n * w >= w) by (nonlinear_arith) requires n > 0, w > 0; }
        if n <= 0 { assert(n * w <= 0) by (nonlinear_arith) requires n <= 0, w > 0; lemma_mul_div(0, w); } }
//@end
//@fn file=crates/storage/src/archive/position_index/index.rs path="impl Iterator for PositionIter :: fn next" ret=r
//@sub? /Self::Item/ => Result<T, FetchError>
//@sub? /buf\[([^\]]*)\]\.copy_from_slice/ => buf.as_mut_slice()[\1].copy_from_slice
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).data == old(self).data, final(self).reverse == old(self).reverse,
        r is None <==> old(self).count() == 0,
        r is Some ==> final(self).count() == old(self).count() - 1 && forall|k: int| 0 <= k < final(self).count() ==> #[trigger] final(self).nth(k) == old(self).nth(k + 1),
        r matches Some(Ok(v)) ==> v.val() =~= old(self).nth(0),
        r is Some ==> forall|v: T| #[trigger] v.val() =~= old(self).nth(0) ==> r == Some(Ok::<T, FetchError>(v)),
//@head
    proof { T::law(); let w = T::width() as int;
        if !self.done {
            let k = self.pos as int / w;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.pos as int, w);
            assert(w * k == k * w) by (nonlinear_arith);
            assert(k >= 0) by (nonlinear_arith) requires k == self.pos as int / w, w > 0, self.pos >= 0;
            lemma_pieces(self.data@.len() as int, w, k);
            let n = self.data@.len() as int / w;
            assert((n - k) * w == n * w - k * w) by (nonlinear_arith);
            lemma_mul_div(n - k, w);
            lemma_mul_div(k, w);
            if k + 1 < n { lemma_mul_div(k + 1, w); assert((n - k - 1) * w == n * w - (k * w + w)) by (nonlinear_arith); lemma_mul_div(n - k - 1, w); }
            if k > 0 { lemma_mul_div(k - 1, w); }
            else { lemma_mul_div(0, w); }
        }
    }
//@end
}
