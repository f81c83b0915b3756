//@known File io SeekFrom Path PathBuf
// assumed contract of the operating system's append-mode file: a byte sequence plus a read position.
// An error leaves the content unspecified except that nothing already stored is changed by a write.
pub mod io {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub enum ErrorKind { ReadOnlyFilesystem, InvalidInput, InvalidData, UnexpectedEof, NotFound, AlreadyExists, Other, StorageFull }
    pub struct Error { pub k: ErrorKind }
    impl Error {
        pub uninterp spec fn text(self) -> Seq<char>;
        #[verifier::external_body]
        pub fn new<M: VxMsg>(k: ErrorKind, m: M) -> (r: Error) ensures r.k == k, r.text() == m.chars() { unimplemented!() }
        #[verifier::external_body]
        pub fn other<M: VxMsg>(m: M) -> (r: Error) ensures r.k == ErrorKind::Other, r.text() == m.chars() { unimplemented!() }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    }
    pub trait VxMsg { spec fn chars(&self) -> Seq<char>; }
    impl VxMsg for &str { open spec fn chars(&self) -> Seq<char> { self@ } }
    impl VxMsg for String { open spec fn chars(&self) -> Seq<char> { self@ } }
    pub type Result<T> = core::result::Result<T, Error>;
}
#[derive(Clone, Copy)]
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub struct Path { pub p: u64 }
pub struct PathBuf { pub p: u64 }
impl Path {
    #[verifier::external_body]
    pub fn parent(&self) -> Option<&Path> { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> PathBuf { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn vx_join(&self, f: &str) -> PathBuf { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn as_path(&self) -> &Path { unimplemented!() }
}
#[verifier::external_body]
pub struct File { f: core::marker::PhantomData<u8> }
impl File {
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    pub uninterp spec fn pos(self) -> int;
    /// the operating system serves this file's in-range requests without an error
    pub uninterp spec fn healthy(self) -> bool;
    /// the operating system can shorten this file (it may still fail to extend it)
    pub uninterp spec fn cuttable(self) -> bool;
    /// what the file held when this program opened it
    pub uninterp spec fn opened(self) -> Seq<u8>;
    pub open spec fn same_os(self, o: File) -> bool { self.healthy() == o.healthy() && self.cuttable() == o.cuttable() && self.opened() == o.opened() }
    #[verifier::external_body]
    pub fn create_new(p: &Path) -> (r: io::Result<File>) { unimplemented!() }
    /// opens the file at `p`: any content below 2^60 bytes
    #[verifier::external_body]
    pub fn vx_open(p: &Path) -> (r: io::Result<File>)
        ensures r matches Ok(f) ==> f.pos() == 0 && f.bytes().len() < 0x1000_0000_0000_0000 && f.opened() == f.bytes(),
    { unimplemented!() }
    /// appends: std's `write_all` on a file opened with append(true)
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures
            final(self).same_os(*old(self)), old(self).healthy() ==> r is Ok,
            r is Ok ==> final(self).bytes() == old(self).bytes() + b@,
            r is Err ==> old(self).bytes().is_prefix_of(final(self).bytes()) && final(self).bytes().is_prefix_of(old(self).bytes() + b@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        ensures
            final(self).bytes() == old(self).bytes(),
            final(self).same_os(*old(self)), old(self).healthy() && (p is Start || p is End && p->End_0 == 0) ==> r is Ok,
            r matches Ok(n) ==> final(self).pos() == n && (match p {
                SeekFrom::Start(s) => n == s,
                SeekFrom::End(d) => n == old(self).bytes().len() + d,
                SeekFrom::Current(d) => n == old(self).pos() + d,
            }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: io::Result<()>)
        ensures final(self).bytes() == old(self).bytes(), r is Ok ==> final(self).pos() == 0,
            final(self).same_os(*old(self)), old(self).healthy() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut [u8]) -> (r: io::Result<()>)
        ensures
            final(self).bytes() == old(self).bytes(), final(b)@.len() == old(b)@.len(),
            final(self).same_os(*old(self)),
            old(self).healthy() && 0 <= old(self).pos() && old(self).pos() + old(b)@.len() <= old(self).bytes().len() ==> r is Ok,
            r is Ok ==> 0 <= old(self).pos() && old(self).pos() + old(b)@.len() <= old(self).bytes().len()
                && final(self).pos() == old(self).pos() + old(b)@.len()
                && final(b)@ =~= old(self).bytes().subrange(old(self).pos(), old(self).pos() + old(b)@.len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&mut self, n: u64) -> (r: io::Result<()>)
        ensures
            final(self).same_os(*old(self)), old(self).healthy() || old(self).cuttable() && n <= old(self).bytes().len() ==> r is Ok,
            r is Ok ==> final(self).bytes().len() == n && forall|i: int| 0 <= i < n ==> #[trigger] final(self).bytes()[i] == (if i < old(self).bytes().len() { old(self).bytes()[i] } else { 0 }),
            r is Err ==> final(self).bytes() == old(self).bytes(),
    { unimplemented!() }
    /// `OpenOptions::new().read(true).append(..).open(path of this file)`: the same content, position 0
    #[verifier::external_body]
    pub fn vx_reopen(&self) -> (r: io::Result<File>)
        ensures r matches Ok(f) ==> f.bytes() == self.bytes() && f.pos() == 0 && f.same_os(*self), self.healthy() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&self) -> (r: io::Result<()>)
        ensures self.healthy() ==> r is Ok,
    { unimplemented!() }
}
