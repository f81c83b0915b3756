//@known fsync_directory
//@include lib/verus/io.rs
//@item file=crates/storage/src/archive/data_file.rs path="const READ_BUFFER_SIZE"
//@end
//@item file=crates/storage/src/archive/data_file.rs path="const WRITE_BUFFER_SIZE"
//@end
//@item file=crates/storage/src/archive/data_file.rs path="struct DataFile"
//@end
impl DataFile {
    /// the byte array the file stands for: bytes on disk, then bytes not yet written
    pub open spec fn bytes(self) -> Seq<u8> { self.data_file.bytes() + self.write_buffer@ }
    pub open spec fn wf(self) -> bool { self.wf0() && self.data_file_end == self.data_file.bytes().len() }
    /// as wf, for a reader whose file another handle may have extended
    pub open spec fn wf0(self) -> bool {
        &&& self.data_file_end <= self.data_file.bytes().len()
        &&& self.bytes().len() < 0x2000_0000_0000_0000
        &&& self.seek_pos < 0x4000_0000_0000_0000
        &&& self.read_buffer_size == READ_BUFFER_SIZE && self.write_buffer_size == WRITE_BUFFER_SIZE
        &&& self.read_buffer@.len() == READ_BUFFER_SIZE
        &&& self.read_buffer_len <= READ_BUFFER_SIZE
        &&& self.read_buffer_start + self.read_buffer_len <= self.data_file_end
        &&& forall|i: int| 0 <= i < self.read_buffer_len ==> #[trigger] self.read_buffer@[i] == self.data_file.bytes()[self.read_buffer_start + i]
        &&& self.write_buffer@.len() <= WRITE_BUFFER_SIZE
        &&& self.read_only ==> self.write_buffer@.len() == 0
    }
    pub open spec fn healthy(self) -> bool { self.data_file.healthy() }
    pub open spec fn cuttable(self) -> bool { self.data_file.cuttable() }
    pub open spec fn same_setup(self, o: Self) -> bool {
        self.data_file.same_os(o.data_file) && self.read_only == o.read_only && self.remove_on_drop == o.remove_on_drop
    }
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn open" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /path: P\b/ => path: &Path
//@sub? /let path = path\.as_ref\(\);/ =>
//@sub? /let _ = fsync_directory\(parent\);/ =>
//@sub? /OpenOptions::new\(\)\.read\(true\)\.append\( !read_only \)\.open\( path \)/ => File::vx_open(path)
//@sub? /&mut (read_buffer)\[([^\]]*)\]/ => &mut \1.as_mut_slice()[\2]
//@sub? /vec!\[0; READ_BUFFER_SIZE\]/ => vx_zeroed(READ_BUFFER_SIZE)
//@spec
    ensures r matches Ok(f) ==> f.wf() && f.seek_pos == 0 && f.bytes() =~= f.data_file.bytes() && f.read_only == read_only && !f.remove_on_drop && f.bytes().len() < 0x1000_0000_0000_0000,
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn data_file_end" ret=r
//@spec
    requires self.wf(),
    ensures r == self.data_file.bytes().len(),
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn len" ret=r
//@spec
    requires self.wf(),
    ensures r == self.bytes().len(),
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn is_empty" ret=r
//@spec
    requires self.wf(),
    ensures r == (self.bytes().len() == 0),
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn write_out" ret=r
//@sub? /let _ = self\.data_file\.set_len\( self\.data_file_end \);/ => { let vx_cut = self.data_file.set_len(self.data_file_end); proof { if vx_cut is Ok { assert(self.data_file.bytes() =~= old(self).data_file.bytes()); } } }
//@spec
    requires old(self).wf(), !old(self).read_only,
    ensures
        final(self).same_setup(*old(self)), final(self).seek_pos == old(self).seek_pos,
        old(self).data_file.bytes().is_prefix_of(final(self).data_file.bytes()),
        old(self).healthy() ==> r is Ok,
        r is Ok ==> final(self).wf() && final(self).bytes() =~= old(self).bytes() && final(self).write_buffer@.len() == 0 && final(self).data_file.bytes() =~= old(self).bytes(),
        // a failed write leaves no part of the buffer behind
        r is Err && old(self).cuttable() ==> final(self).wf() && final(self).bytes() =~= old(self).bytes() && final(self).data_file.bytes() =~= old(self).data_file.bytes()
            && final(self).write_buffer == old(self).write_buffer,
        r is Err ==> final(self).write_buffer == old(self).write_buffer,
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn set_len" ret=r
//@sub? /OpenOptions::new\(\)\.read\(true\)\.append\( !self\.read_only \)\.open\( &self\.data_file_path \)/ => self.data_file.vx_reopen()
//@sub? /self\.read_buffer\[([^\]]*)\]/ => self.read_buffer.as_mut_slice()[\1]
//@spec
    requires old(self).wf(), len < 0x2000_0000_0000_0000,
    ensures
        final(self).same_setup(*old(self)), final(self).seek_pos == old(self).seek_pos,
        old(self).healthy() ==> r is Ok,
        r is Err && old(self).cuttable() && old(self).write_buffer@.len() > 0 && final(self).write_buffer@.len() > 0 ==> final(self).wf() && final(self).bytes() =~= old(self).bytes(),
        // truncates or extends with zeros, buffered bytes included
        r is Ok ==> final(self).wf() && final(self).bytes().len() == len && final(self).write_buffer@.len() == 0
            && forall|i: int| 0 <= i < len ==> #[trigger] final(self).bytes()[i] == (if i < old(self).bytes().len() { old(self).bytes()[i] } else { 0 }),
//@head
    proof { assert(self.data_file.bytes() + Seq::<u8>::empty() =~= self.data_file.bytes()); }
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn refresh_data_file_end" ret=r
//@spec
    requires old(self).wf0(),
    ensures final(self).same_setup(*old(self)), final(self).seek_pos == old(self).seek_pos,
        r is Ok ==> final(self).wf() && final(self).bytes() == old(self).bytes(),
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn copy_read_buffer" ret=r
//@spec
    requires
        old(self).wf(), 0 < old(buf)@.len() < 0x2000_0000_0000_0000,
        old(self).read_buffer_start <= old(self).seek_pos < old(self).read_buffer_start + old(self).read_buffer_len,
    ensures
        final(self).wf(), final(self).bytes() == old(self).bytes(), final(self).data_file.bytes() == old(self).data_file.bytes(), final(self).same_setup(*old(self)),
        r matches Ok(n) && read_result(old(self).bytes(), old(self).seek_pos as int, old(buf)@, final(buf)@, n as int) && n > 0 && final(self).seek_pos == old(self).seek_pos + n,
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl Read for DataFile :: fn read" ret=r
//@sub? /&mut self\.read_buffer\[([^\]]*)\]/ => &mut self.read_buffer.as_mut_slice()[\1]
//@spec
    requires old(self).wf(), old(buf)@.len() < 0x2000_0000_0000_0000,
    ensures
        final(self).same_setup(*old(self)), final(self).bytes() == old(self).bytes(), final(self).data_file.bytes() == old(self).data_file.bytes(),
        old(self).healthy() ==> r is Ok,
        r matches Ok(n) ==> final(self).wf()
            && read_result(old(self).bytes(), old(self).seek_pos as int, old(buf)@, final(buf)@, n as int)
            && final(self).seek_pos == old(self).seek_pos + n
            && (n == 0 ==> old(buf)@.len() == 0 || old(self).seek_pos >= old(self).bytes().len()),
        final(buf)@.len() == old(buf)@.len(),
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl Seek for DataFile :: fn seek" ret=r
//@sub? /std::io::/ => io::
//@spec
    requires old(self).wf(),
        match pos { SeekFrom::Start(p) => p < 0x4000_0000_0000_0000, SeekFrom::End(p) => -0x2000_0000_0000_0000 < p < 0x2000_0000_0000_0000, SeekFrom::Current(p) => -0x4000_0000_0000_0000 < p < 0x2000_0000_0000_0000 && old(self).seek_pos + p < 0x4000_0000_0000_0000 },
    ensures
        final(self).wf(), final(self).same_setup(*old(self)), final(self).bytes() == old(self).bytes(), final(self).data_file.bytes() == old(self).data_file.bytes(),
        ({ let want = match pos { SeekFrom::Start(p) => p as int, SeekFrom::End(p) => old(self).bytes().len() + p, SeekFrom::Current(p) => old(self).seek_pos + p };
           if want >= 0 { r matches Ok(n) && n == want && final(self).seek_pos == want } else { r is Err && final(self).seek_pos == old(self).seek_pos } }),
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl Write for DataFile :: fn write" ret=r
//@sub? /self\.write_buffer\.write_all\( &? (buf(\[[^\]]*\])?) \)/ => vx_vec_write_all(&mut self.write_buffer, &\1)
//@spec
    requires old(self).wf(), old(self).bytes().len() + buf@.len() < 0x2000_0000_0000_0000,
    ensures
        final(self).same_setup(*old(self)), final(self).seek_pos == old(self).seek_pos,
        old(self).data_file.bytes().is_prefix_of(final(self).data_file.bytes()),
        old(self).read_only ==> r is Err && final(self).bytes() == old(self).bytes() && final(self).wf(),
        old(self).healthy() && !old(self).read_only ==> r is Ok,
        r is Err && old(self).cuttable() ==> final(self).wf() && final(self).bytes() =~= old(self).bytes(),
        // a write that fits the buffer needs no file operation; a short one leaves the buffer empty
        !old(self).read_only && old(self).write_buffer@.len() + buf@.len() < WRITE_BUFFER_SIZE ==> r == Ok::<usize, io::Error>(buf@.len() as usize),
        (r matches Ok(n) && n < buf@.len()) ==> final(self).write_buffer@.len() == 0,
        r matches Ok(n) ==> final(self).wf() && 0 <= n <= buf@.len() && (buf@.len() > 0 ==> n > 0)
            && final(self).bytes() =~= old(self).bytes() + buf@.take(n as int),
//@end
//@fn file=crates/storage/src/archive/data_file.rs path="impl DataFile :: fn sync_all" ret=r
//@spec
    ensures self.healthy() ==> r is Ok,
//@end
    // std's default methods of Read / Seek / Write, restated as the loops they are and proved over the methods above
    pub fn read_exact(&mut self, b: &mut [u8]) -> (r: io::Result<()>)
        requires old(self).wf(), old(b)@.len() < 0x2000_0000_0000_0000,
        ensures
            final(self).same_setup(*old(self)), final(self).bytes() == old(self).bytes(), final(self).data_file.bytes() == old(self).data_file.bytes(), final(b)@.len() == old(b)@.len(),
            r is Ok ==> final(self).wf() && old(self).seek_pos + old(b)@.len() <= old(self).bytes().len() + (if old(b)@.len() == 0 { old(self).seek_pos as int } else { 0 })
                && final(self).seek_pos == old(self).seek_pos + old(b)@.len()
                && (old(b)@.len() > 0 ==> final(b)@ =~= old(self).bytes().subrange(old(self).seek_pos as int, old(self).seek_pos + old(b)@.len())),
            old(self).healthy() ==> final(self).wf() && (r is Err ==> old(b)@.len() > 0 && r->Err_0.k == io::ErrorKind::UnexpectedEof && old(self).seek_pos + old(b)@.len() > old(self).bytes().len()),
    {
        let n = b.len();
        let mut k: usize = 0;
        while k < n
            invariant
                self.wf(), self.same_setup(*old(self)), self.bytes() == old(self).bytes(), self.data_file.bytes() == old(self).data_file.bytes(),
                b@.len() == n == old(b)@.len(), n < 0x2000_0000_0000_0000, k <= n,
                self.seek_pos == old(self).seek_pos + k, k > 0 ==> old(self).seek_pos + k <= self.bytes().len(),
                forall|i: int| 0 <= i < k ==> #[trigger] b@[i] == self.bytes()[old(self).seek_pos + i],
            decreases n - k,
        {
            match self.read(&mut b[k..n]) {
                Ok(m) => { if m == 0 { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "failed to fill whole buffer")); } k = k + m; }
                Err(e) => { return Err(e); }
            }
        }
        Ok(())
    }
    pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        requires old(self).wf(), old(self).bytes().len() + b@.len() < 0x2000_0000_0000_0000,
        ensures
            final(self).same_setup(*old(self)), final(self).seek_pos == old(self).seek_pos,
            old(self).data_file.bytes().is_prefix_of(final(self).data_file.bytes()),
            old(self).healthy() && !old(self).read_only ==> r is Ok,
            r is Err && old(self).cuttable() ==> final(self).wf() && exists|k: int| 0 <= k < b@.len() && final(self).bytes() =~= old(self).bytes() + #[trigger] b@.take(k),
            // a short write is all or nothing
            r is Err && old(self).cuttable() && b@.len() < WRITE_BUFFER_SIZE ==> final(self).bytes() =~= old(self).bytes(),
            old(self).read_only && b@.len() > 0 ==> r is Err && final(self).bytes() == old(self).bytes() && final(self).wf(),
            r is Ok ==> final(self).wf() && final(self).bytes() =~= old(self).bytes() + b@,
    {
        let n = b.len();
        let mut k: usize = 0;
        while k < n
            invariant
                self.wf(), self.same_setup(*old(self)), self.seek_pos == old(self).seek_pos, k <= n == b@.len(), old(self).bytes().len() + n < 0x2000_0000_0000_0000,
                old(self).data_file.bytes().is_prefix_of(self.data_file.bytes()),
                old(self).read_only ==> k == 0 && self.bytes() == old(self).bytes(),
                self.bytes() =~= old(self).bytes() + b@.take(k as int), k > 0 ==> k == n || self.write_buffer@.len() == 0,
            decreases n - k,
        {
            match self.write(&b[k..n]) {
                Ok(m) => { proof { assert(b@.take(k + m) =~= b@.take(k as int) + b@.subrange(k as int, n as int).take(m as int)); } k = k + m; }
                Err(e) => { return Err(e); }
            }
        }
        Ok(())
    }
    pub fn rewind(&mut self) -> (r: io::Result<()>)
        requires old(self).wf(),
        ensures r is Ok, final(self).wf(), final(self).seek_pos == 0, final(self).same_setup(*old(self)), final(self).bytes() == old(self).bytes(), final(self).data_file.bytes() == old(self).data_file.bytes(),
    { match self.seek(SeekFrom::Start(0)) { Ok(_) => Ok(()), Err(e) => Err(e) } }
//@fn file=crates/storage/src/archive/data_file.rs path="impl Write for DataFile :: fn flush" ret=r
//@spec
    requires old(self).wf(),
    ensures
        final(self).same_setup(*old(self)), final(self).seek_pos == old(self).seek_pos,
        old(self).data_file.bytes().is_prefix_of(final(self).data_file.bytes()),
        old(self).healthy() ==> r is Ok,
        old(self).read_only ==> r is Ok && *final(self) == *old(self),
        r is Err && old(self).cuttable() ==> final(self).wf() && final(self).bytes() =~= old(self).bytes(),
        r is Ok ==> final(self).wf() && final(self).bytes() =~= old(self).bytes() && final(self).write_buffer@.len() == 0
            && final(self).data_file.bytes() =~= old(self).bytes(),
//@end
}
pub open spec fn read_result(all: Seq<u8>, at: int, before: Seq<u8>, after: Seq<u8>, n: int) -> bool {
    &&& 0 <= n <= before.len() && before.len() == after.len()
    &&& n > 0 ==> at + n <= all.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] after[i] == all[at + i]
    &&& forall|i: int| n <= i < before.len() ==> #[trigger] after[i] == before[i]
}
#[verifier::external_body]
pub fn vx_zeroed(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0 { vec![0; n] }
/// `Write for Vec<u8>`: appends everything
#[verifier::external_body]
pub fn vx_vec_write_all(v: &mut Vec<u8>, b: &[u8]) -> (r: io::Result<()>)
    ensures r is Ok, final(v)@ == old(v)@ + b@,
{ unimplemented!() }
