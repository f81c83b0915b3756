//@known PFile
// assumed contract of a file opened for reading and writing in place (not append): reads as File;
// a write puts bytes at the position, extends past the end (a gap reads as zeros) and on an error
// has changed nothing outside the range it was given
pub open spec fn outside(a: Seq<u8>, b: Seq<u8>, lo: int, n: int) -> bool {
    &&& b.len() >= a.len()
    &&& forall|i: int| 0 <= i < a.len() && !(lo <= i < lo + n) ==> #[trigger] b[i] == a[i]
}
#[verifier::external_body]
pub struct PFile { f: core::marker::PhantomData<u8> }
impl PFile {
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    pub uninterp spec fn pos(self) -> int;
    pub uninterp spec fn healthy(self) -> bool;
    /// what the file held when this program opened it
    pub uninterp spec fn opened(self) -> Seq<u8>;
    pub open spec fn same_os(self, o: PFile) -> bool { self.healthy() == o.healthy() && self.opened() == o.opened() }
    #[verifier::external_body]
    pub fn vx_open(p: &Path) -> (r: io::Result<PFile>)
        ensures r matches Ok(f) ==> f.pos() == 0 && f.bytes().len() < 0x1000_0000_0000_0000 && f.opened() == f.bytes(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        requires 0 <= old(self).pos(), old(self).pos() + b@.len() < 0x2000_0000_0000_0000,
        ensures
            final(self).same_os(*old(self)), old(self).healthy() ==> r is Ok,
            outside(old(self).bytes(), final(self).bytes(), old(self).pos(), b@.len() as int),
            final(self).bytes().len() <= old(self).bytes().len() || final(self).bytes().len() <= old(self).pos() + b@.len(),
            r is Ok ==> final(self).pos() == old(self).pos() + b@.len()
                && final(self).bytes().len() >= old(self).pos() + b@.len()
                && forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] == final(self).bytes()[old(self).pos() + i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        ensures
            final(self).bytes() == old(self).bytes(), final(self).same_os(*old(self)),
            old(self).healthy() && (p is Start || p is End && p->End_0 == 0) ==> r is Ok,
            r matches Ok(n) ==> final(self).pos() == n && (match p {
                SeekFrom::Start(s) => n == s,
                SeekFrom::End(d) => n == old(self).bytes().len() + d,
                SeekFrom::Current(d) => n == old(self).pos() + d,
            }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: io::Result<()>)
        ensures final(self).bytes() == old(self).bytes(), r is Ok ==> final(self).pos() == 0,
            final(self).same_os(*old(self)), old(self).healthy() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut [u8]) -> (r: io::Result<()>)
        ensures
            final(self).bytes() == old(self).bytes(), final(b)@.len() == old(b)@.len(), final(self).same_os(*old(self)),
            old(self).healthy() && 0 <= old(self).pos() && old(self).pos() + old(b)@.len() <= old(self).bytes().len() ==> r is Ok,
            r is Ok ==> 0 <= old(self).pos() && old(self).pos() + old(b)@.len() <= old(self).bytes().len()
                && final(self).pos() == old(self).pos() + old(b)@.len()
                && final(b)@ =~= old(self).bytes().subrange(old(self).pos(), old(self).pos() + old(b)@.len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).bytes() == old(self).bytes(), final(self).same_os(*old(self)), old(self).healthy() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&self) -> (r: io::Result<()>)
        ensures self.healthy() ==> r is Ok,
    { unimplemented!() }
}
