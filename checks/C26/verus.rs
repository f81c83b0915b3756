// C26: the execution-state pack
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@known BTreeMap ExecHeader Address B256 Bytes U256 GenesisAccount Pack PackIter Path PathBuf FetchError AppendError OpenError LoadHeaderError CommitError io File
//@include lib/verus/viter.rs
//@include lib/verus/btree.rs
//@include lib/verus/question.rs
pub mod vx_prim {
use vstd::prelude::*;
use super::*;
// ---- primitives of alloy and std used as values (assumed)
#[derive(Clone, Copy, Debug)] pub struct B256(pub [u8; 32]);
#[derive(Clone, Copy, Debug)] pub struct Address(pub [u8; 20]);
#[derive(Clone, Copy, Debug)] pub struct U256(pub [u64; 4]);
impl PartialEqSpecImpl for B256 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for B256 { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
pub uninterp spec fn u_be(u: U256) -> Seq<u8>;
pub uninterp spec fn be_u(b: Seq<u8>) -> U256;
/// 32 big-endian bytes and the number determine each other
pub broadcast axiom fn ax_u256(u: U256) ensures #[trigger] be_u(u_be(u)) == u, u_be(u).len() == 32;
impl U256 {
    #[verifier::external_body] pub fn vx_be<const N: usize>(&self) -> (r: [u8; N]) ensures N == 32 ==> r@ == u_be(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_U256_be(b: [u8; 32]) -> (r: U256) ensures r == be_u(b@) { unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<[u8; 32]> for B256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: [u8; 32]) -> B256 { B256(b) } }
impl From<[u8; 32]> for B256 { fn from(b: [u8; 32]) -> (r: B256) { B256(b) } }
#[verifier::external_body] #[derive(Debug)] pub struct Bytes { b: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Bytes) ensures r == *self { unimplemented!() } }
impl Bytes { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() } }
pub struct GenesisAccount { pub nonce: Option<u64>, pub balance: U256, pub code: Option<Bytes>, pub storage: Option<BTreeMap<B256, B256>>, pub private_key: Option<B256> }
/// a block header: the two fields read here and whatever else its hash covers
pub struct ExecHeader { pub state_root: B256, pub number: u64, pub rest: u64 }
pub uninterp spec fn hhash(h: ExecHeader) -> B256;
pub uninterp spec fn rlp(h: ExecHeader) -> Seq<u8>;
pub uninterp spec fn unrlp(b: Seq<u8>) -> Option<ExecHeader>;
/// decoding inverts encoding
pub broadcast axiom fn ax_rlp(h: ExecHeader) ensures unrlp(#[trigger] rlp(h)) == Some(h);
#[verifier::external_body] #[derive(Debug)] pub struct RlpError { e: u8 }
impl RlpError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
impl ExecHeader {
    #[verifier::external_body] pub fn hash_slow(&self) -> (r: B256) ensures r == hhash(*self) { unimplemented!() }
    #[verifier::external_body] pub fn encode(&self, out: &mut Vec<u8>) ensures final(out)@ == old(out)@ + rlp(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_rlp_decode(b: &[u8]) -> (r: Result<ExecHeader, RlpError>)
    ensures unrlp(b@) is Some ==> r == Ok::<ExecHeader, RlpError>(unrlp(b@)->Some_0), unrlp(b@) is None ==> r is Err { unimplemented!() }
// ---- paths
#[verifier::external_body] pub struct Path { p: u8 }
#[verifier::external_body] pub struct PathBuf { p: u8 }
pub uninterp spec fn joined(p: &Path, n: Seq<char>) -> PathBuf;
impl Path { #[verifier::external_body] pub fn join(&self, n: &str) -> (r: PathBuf) ensures r == joined(self, n@) { unimplemented!() } }
pub mod io { use vstd::prelude::*; #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 } }
#[verifier::external_body] pub fn create_dir_all(p: &Path) -> (r: Result<(), io::Error>) { unimplemented!() }
#[verifier::external_body] #[derive(Debug)] pub struct OpenError { e: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct LoadHeaderError { e: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct FetchError { e: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct AppendError { e: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct CommitError { e: u8 }
impl AppendError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
impl CommitError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
// ---- the pack file: the contract C14 proves of append / commit / raw_iter / next, with records as values
#[derive(Clone, Copy)] pub enum PackCompression { None, ZStd }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Pack<V> { v: core::marker::PhantomData<V> }
/// what reading the data file of a pack yields, record by record; damage is an error in its place
pub uninterp spec fn disk<V>(p: PathBuf) -> Seq<Result<V, FetchError>>;
impl<V> Pack<V> {
    pub uninterp spec fn recs(&self) -> Seq<V>;
    pub uninterp spec fn failed(&self) -> bool;
    pub uninterp spec fn durable(&self) -> bool;
    pub uninterp spec fn version(&self) -> u16;
    pub uninterp spec fn stream(&self) -> Seq<Result<V, FetchError>>;
    #[verifier::external_body]
    pub fn open(p: PathBuf, uid: u64, read_only: bool, c: PackCompression, version: u16) -> (r: Result<Pack<V>, OpenError>)
        ensures r matches Ok(k) ==> !k.failed() && k.version() == version && (read_only ==> k.stream() == disk::<V>(p))
    { unimplemented!() }
    /// a refused append fails the pack for good
    #[verifier::external_body]
    pub fn append(&mut self, v: &V) -> (r: Result<u64, AppendError>)
        ensures
            final(self).version() == old(self).version(),
            r is Ok ==> final(self).recs() == old(self).recs().push(*v) && !final(self).failed() && !old(self).failed(),
            r is Err ==> final(self).failed(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn commit(&mut self) -> (r: Result<(), CommitError>)
        ensures r is Ok ==> !old(self).failed() && final(self).durable() && final(self).recs() == old(self).recs() && final(self).version() == old(self).version()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_iter(&self) -> (r: Result<PackIter<V, File>, LoadHeaderError>) ensures r matches Ok(i) ==> i.rest() == self.stream() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(R)] pub struct PackIter<V, R> { v: core::marker::PhantomData<V>, r: core::marker::PhantomData<R> }
pub struct File { pub f: u64 }
impl<V, R> PackIter<V, R> {
    pub uninterp spec fn rest(&self) -> Seq<Result<V, FetchError>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<V, FetchError>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
}
pub use vx_prim::*;
pub assume_specification<T> [std::mem::replace] (d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;
#[verifier::external_body] pub fn vx_extend<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { v.extend(o) }
#[verifier::external_body] pub fn vx_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
broadcast use {ax_u256, ax_rlp, vx_btree::group_btree, vx_q::ax_question, lemma_vw_push, lemma_n_push};
//@item file=crates/storage/src/exec_state_pack.rs path="const EXEC_STATE_PACK_VERSION"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="const DATA_NAME"
//@sub? /: &str/ => : &'static str
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="const STORAGE_CHUNK_SLOTS"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="const BLOCKHASH_ANCESTORS"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="const MAX_HEADER_COUNT"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="struct ExecStateMeta"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="struct ExecStateAccount"
//@end
#[derive(Clone, Copy)]
//@item file=crates/storage/src/exec_state_pack.rs path="struct ExecStateStats"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="struct AccountRecord"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="struct ExecStateAccountMeta"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="enum StateEntry"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="enum ExecStateRecord"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="struct VerifyReport"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="struct ExecStatePackWriter"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="struct ExecStatePackReader"
//@end
//@item file=crates/storage/src/exec_state_pack.rs path="enum ExecStatePackError"
//@end
impl ExecStateStats { pub fn default() -> (r: Self) ensures r == (ExecStateStats { account_count: 0, storage_slots: 0, bytecodes: 0 }) { ExecStateStats { account_count: 0, storage_slots: 0, bytecodes: 0 } } }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for ExecStatePackError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: io::Error) -> Self { ExecStatePackError::Io(e) } }
impl From<io::Error> for ExecStatePackError {
//@fn file=crates/storage/src/exec_state_pack.rs path="impl From<io::Error> for ExecStatePackError :: fn from" ret=r trait
//@spec
    ensures r == ExecStatePackError::Io(value),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<OpenError> for ExecStatePackError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: OpenError) -> Self { ExecStatePackError::Open(e) } }
impl From<OpenError> for ExecStatePackError {
//@fn file=crates/storage/src/exec_state_pack.rs path="impl From<OpenError> for ExecStatePackError :: fn from" ret=r trait
//@spec
    ensures r == ExecStatePackError::Open(value),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<LoadHeaderError> for ExecStatePackError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: LoadHeaderError) -> Self { ExecStatePackError::LoadHeader(e) } }
impl From<LoadHeaderError> for ExecStatePackError {
//@fn file=crates/storage/src/exec_state_pack.rs path="impl From<LoadHeaderError> for ExecStatePackError :: fn from" ret=r trait
//@spec
    ensures r == ExecStatePackError::LoadHeader(value),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<FetchError> for ExecStatePackError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: FetchError) -> Self { ExecStatePackError::Read(e) } }
impl From<FetchError> for ExecStatePackError {
//@fn file=crates/storage/src/exec_state_pack.rs path="impl From<FetchError> for ExecStatePackError :: fn from" ret=r trait
//@spec
    ensures r == ExecStatePackError::Read(value),
//@end
}
// ---- records as values
pub mod vx_lem {
use vstd::prelude::*;
use super::*;
pub type Slots = Seq<(B256, B256)>;
pub enum Rec { Meta(ExecStateMeta), Header(Seq<u8>), Account(AccountRecord), Storage(Slots), End(ExecStateStats) }
pub open spec fn rv(r: ExecStateRecord) -> Rec {
    match r { ExecStateRecord::Meta(m) => Rec::Meta(m), ExecStateRecord::Header(b) => Rec::Header(b@), ExecStateRecord::Account(a) => Rec::Account(a), ExecStateRecord::Storage(s) => Rec::Storage(s@), ExecStateRecord::End(t) => Rec::End(t) }
}
pub open spec fn vw(s: Seq<ExecStateRecord>) -> Seq<Rec> { s.map_values(|r: ExecStateRecord| rv(r)) }
pub open spec fn n_slots() -> nat { STORAGE_CHUNK_SLOTS as nat }
/// the storage records of a list of slots: full chunks, then the rest
pub open spec fn chunks(l: Slots) -> Seq<Rec> decreases l.len() {
    if l.len() == 0 { seq![] } else if l.len() <= STORAGE_CHUNK_SLOTS { seq![Rec::Storage(l)] } else { seq![Rec::Storage(l.take(STORAGE_CHUNK_SLOTS as int))] + chunks(l.skip(STORAGE_CHUNK_SLOTS as int)) }
}
/// the slots of an account in key order
pub open spec fn pairs(m: Map<B256, B256>) -> Slots { Seq::new(sorted_keys(m.dom()).len(), |i: int| (sorted_keys(m.dom())[i], m[sorted_keys(m.dom())[i]])) }
pub open spec fn slots_of(a: GenesisAccount) -> Slots { match a.storage { Some(m) => pairs(m@), None => seq![] } }
pub open spec fn b_of(u: U256) -> B256 { choose|b: B256| b.0@ == u_be(u) }
pub open spec fn is_hdr(h: AccountRecord, address: Address, nonce: u64, balance: U256, code: Option<Bytes>) -> bool {
    h.address == address && h.nonce == nonce && h.balance.0@ == u_be(balance) && h.code == code
}
pub open spec fn nonce_of(a: GenesisAccount) -> u64 { match a.nonce { Some(n) => n, None => 0 } }
/// the records of an account
pub open spec fn is_acct(rs: Seq<Rec>, a: ExecStateAccount) -> bool {
    &&& rs.len() >= 1
    &&& rs[0] matches Rec::Account(h) && is_hdr(h, a.address, nonce_of(a.account), a.account.balance, a.account.code)
    &&& rs.skip(1) =~= chunks(slots_of(a.account))
}
pub open spec fn has_code(c: Option<Bytes>) -> bool { c matches Some(b) && b@.len() > 0 }
pub open spec fn n_acc(s: Seq<Rec>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { n_acc(s.drop_last()) + (if s.last() is Account { 1nat } else { 0 }) } }
pub open spec fn n_slot(s: Seq<Rec>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { n_slot(s.drop_last()) + (match s.last() { Rec::Storage(c) => c.len(), _ => 0 }) } }
pub open spec fn n_code(s: Seq<Rec>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { n_code(s.drop_last()) + (match s.last() { Rec::Account(h) => if has_code(h.code) { 1nat } else { 0 }, _ => 0 }) } }
pub open spec fn tally(s: Seq<Rec>, t: ExecStateStats) -> bool { t.account_count == n_acc(s) && t.storage_slots == n_slot(s) && t.bytecodes == n_code(s) }
pub broadcast proof fn lemma_vw_push(s: Seq<ExecStateRecord>, r: ExecStateRecord) ensures #[trigger] vw(s.push(r)) == vw(s).push(rv(r)) { assert(vw(s.push(r)) =~= vw(s).push(rv(r))); }
pub broadcast proof fn lemma_n_push(s: Seq<Rec>, r: Rec)
    ensures
        #[trigger] n_acc(s.push(r)) == n_acc(s) + (if r is Account { 1nat } else { 0 }),
        #[trigger] n_slot(s.push(r)) == n_slot(s) + (match r { Rec::Storage(c) => c.len(), _ => 0 }),
        #[trigger] n_code(s.push(r)) == n_code(s) + (match r { Rec::Account(h) => if has_code(h.code) { 1nat } else { 0 }, _ => 0 }),
{ assert(s.push(r).drop_last() =~= s); }
}
pub use vx_lem::*;
/// full chunks followed by a rest that is not full are the chunks of the whole list
pub open spec fn flat(s: Seq<Slots>) -> Slots decreases s.len() { if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last() } }
pub open spec fn full(s: Seq<Slots>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == STORAGE_CHUNK_SLOTS }
pub open spec fn as_recs(s: Seq<Slots>) -> Seq<Rec> { s.map_values(|c: Slots| Rec::Storage(c)) }
pub proof fn lemma_flat_front(s: Seq<Slots>)
    requires s.len() > 0,
    ensures flat(s) =~= s[0] + flat(s.skip(1)),
    decreases s.len(),
{
    if s.len() == 1 { assert(s.drop_last() =~= seq![]); assert(s.skip(1) =~= seq![]); assert(flat(s.drop_last()) =~= seq![]); }
    else { lemma_flat_front(s.drop_last()); assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); assert(s.skip(1).last() == s.last()); }
}
pub proof fn lemma_chunks(s: Seq<Slots>, rem: Slots)
    requires full(s), rem.len() < STORAGE_CHUNK_SLOTS,
    ensures chunks(flat(s) + rem) =~= as_recs(s) + (if rem.len() > 0 { seq![Rec::Storage(rem)] } else { seq![] }),
    decreases s.len(),
{
    let n = STORAGE_CHUNK_SLOTS as int;
    let l = flat(s) + rem;
    if s.len() == 0 { assert(l =~= rem); }
    else {
        lemma_flat_front(s);
        let t = s.skip(1);
        assert(full(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() == STORAGE_CHUNK_SLOTS by { assert(t[i] == s[i + 1]); } }
        lemma_chunks(t, rem);
        assert(l =~= s[0] + (flat(t) + rem));
        if l.len() == n { 
            assert(rem.len() == 0 && flat(t).len() == 0);
            if t.len() > 0 { lemma_flat_front(t); assert(flat(t).len() >= t[0].len()); }
            assert(t.len() == 0);
            assert(l =~= s[0]);
            assert(as_recs(s) =~= seq![Rec::Storage(l)]);
        } else {
            assert(l.take(n) =~= s[0]);
            assert(l.skip(n) =~= flat(t) + rem);
            assert(as_recs(s) =~= seq![Rec::Storage(s[0])] + as_recs(t));
        }
    }
}
// ---- headers
//@fn file=crates/storage/src/exec_state_pack.rs path="fn encode_header" ret=r
//@spec
    ensures r@ =~= rlp(*header),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="fn decode_header" ret=r
//@sub? /ExecHeader::decode\(&mut &bytes\[\.\.\]\)/ => vx_rlp_decode(bytes)
//@desugar res.map_err
//@spec
    ensures
        unrlp(bytes@) is Some ==> r == Ok::<ExecHeader, ExecStatePackError>(unrlp(bytes@)->Some_0),
        unrlp(bytes@) is None ==> (r matches Err(e) && e is HeaderRlp),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="fn check_chunk_bound" ret=r
//@desugar bool.then_some
//@desugar opt.ok_or
//@spec
    ensures
        len <= STORAGE_CHUNK_SLOTS ==> r is Ok,
        len > STORAGE_CHUNK_SLOTS ==> r == Err::<(), _>(ExecStatePackError::OversizedStorageChunk { len, max: STORAGE_CHUNK_SLOTS }),
//@end
/// the account made of a header record and its slots
pub open spec fn is_account(r: ExecStateAccount, h: AccountRecord, s: Slots) -> bool {
    &&& r.address == h.address && r.account.nonce == Some(h.nonce) && r.account.balance == be_u(h.balance.0@) && r.account.code == h.code && r.account.private_key is None
    &&& s.len() == 0 ==> r.account.storage is None
    &&& s.len() > 0 ==> (r.account.storage matches Some(m) && m@ == map_of(s))
}
impl AccountRecord {
//@fn file=crates/storage/src/exec_state_pack.rs path="impl AccountRecord :: fn into_account_with_storage" ret=r
//@desugar bool.then
//@sub? /storage\.into_iter\(\)/ => vx_into_iter(storage)
//@spec
    ensures is_account(r, self, storage@),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl AccountRecord :: fn into_meta" ret=r
//@spec
    ensures r == (ExecStateAccountMeta { address: self.address, nonce: self.nonce, balance: be_u(self.balance.0@), code: self.code }),
//@end
}
// ---- writing
/// the file holds what a pack of (root, headers) starts with
pub open spec fn is_head(s: Seq<Rec>, root: B256, h: Seq<ExecHeader>) -> bool {
    &&& s.len() == 1 + h.len() && h.len() > 0 && h[0].state_root == root
    &&& s[0] == Rec::Meta(ExecStateMeta { state_root: root, block_number: h[0].number, block_hash: hhash(h[0]), header_count: h.len() as u32 })
    &&& forall|i: int| 0 <= i < h.len() ==> #[trigger] s[i + 1] == Rec::Header(rlp(h[i]))
}
impl ExecStatePackWriter {
    pub open spec fn out(self) -> Seq<Rec> { vw(self.data.recs()) }
    /// the tallies (64 bits) have room for n more slots and one more account
    pub open spec fn room(self, n: nat) -> bool { self.stats.account_count < u64::MAX && self.stats.storage_slots + n <= u64::MAX && self.stats.bytecodes < u64::MAX }
    /// the running tallies are those of the records written since `base`
    pub open spec fn counts(self, base: ExecStateStats) -> bool {
        &&& self.stats.account_count == base.account_count + n_acc(self.out())
        &&& self.stats.storage_slots == base.storage_slots + n_slot(self.out())
        &&& self.stats.bytecodes == base.bytecodes + n_code(self.out())
    }
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackWriter :: fn append" ret=r
//@desugar res.map_err
//@desugar res.map
//@spec
    ensures
        final(data).version() == old(data).version(),
        r is Ok ==> vw(final(data).recs()) == vw(old(data).recs()).push(rv(*record)) && !final(data).failed() && !old(data).failed(),
        r matches Err(e) ==> final(data).failed() && e is Append,
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackWriter :: fn create" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /path: P,/ => path: &Path,
//@sub? /path\.as_ref\(\)/ => path
//@sub? /std::fs::create_dir_all/ => create_dir_all
//@sub? /in headers\b/ => in headers.iter()
//@desugar opt.ok_or
//@loop 0 iter=it
    invariant
        headers@.len() <= u32::MAX, headers@.len() > 0, headers@[0].state_root == state_root, it.seq().len() == headers@.len(), forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
        data.version() == EXEC_STATE_PACK_VERSION, !data.failed(),
        vw(data.recs()).len() == vx_s0.len() + 1 + it.index(), vx_s0.is_prefix_of(vw(data.recs())),
        vw(data.recs())[vx_s0.len() as int] == Rec::Meta(vx_m),
        forall|i: int| 0 <= i < it.index() ==> #[trigger] vw(data.recs())[vx_s0.len() + 1 + i] == Rec::Header(rlp(headers@[i])),
//@after /let meta = [^;]*;/
    let ghost vx_m = meta;
    let ghost vx_s0 = vw(data.recs());
//@tail vx_r
    proof {
        let hd = vw(data.recs()).skip(vx_s0.len() as int);
        assert(vw(data.recs()) =~= vx_s0 + hd);
        assert forall|i: int| 0 <= i < headers@.len() implies #[trigger] hd[i + 1] == Rec::Header(rlp(headers@[i])) by { assert(hd[i + 1] == vw(data.recs())[vx_s0.len() + 1 + i]); }
        assert(is_head(hd, state_root, headers@));
    }
//@spec
    requires headers@.len() <= u32::MAX,
    ensures
        r matches Ok(w) ==> w.data.version() == EXEC_STATE_PACK_VERSION && !w.data.failed()
            && (exists|s0: Seq<Rec>, hd: Seq<Rec>| is_head(hd, state_root, headers@) && w.out() =~= #[trigger] (s0 + hd)) && w.stats == (ExecStateStats { account_count: 0, storage_slots: 0, bytecodes: 0 }),
        headers@.len() == 0 ==> (r matches Err(e) && e is MissingHeaders),
        headers@.len() > 0 && headers@[0].state_root != state_root ==> (r matches Err(e) && e is StateRootMismatch),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackWriter :: fn append_account_header" ret=r
//@desugar opt.is_some_and
//@spec
    requires old(self).room(0),
    ensures
        final(self).data.version() == old(self).data.version(),
        r is Err ==> final(self).data.failed(),
        r is Ok ==> !final(self).data.failed() && !old(self).data.failed() && final(self).out() == old(self).out().push(final(self).out().last()) && (final(self).out().last() matches Rec::Account(h) && is_hdr(h, address, nonce, balance, code)),
        r is Ok ==> final(self).stats == (ExecStateStats { account_count: (old(self).stats.account_count + 1) as u64, bytecodes: (old(self).stats.bytecodes + (if has_code(code) { 1int } else { 0 })) as u64, ..old(self).stats }),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackWriter :: fn append_storage_chunk" ret=r
//@sub? /(\w+)\.to_vec\(\)/ => vx_to_vec(\1)
//@spec
    requires old(self).stats.storage_slots + slots@.len() <= u64::MAX,
    ensures
        final(self).data.version() == old(self).data.version(),
        slots@.len() == 0 ==> r is Ok && *final(self) == *old(self),
        slots@.len() > STORAGE_CHUNK_SLOTS ==> (r matches Err(e) && e is OversizedStorageChunk && *final(self) == *old(self)),
        r is Err && slots@.len() <= STORAGE_CHUNK_SLOTS ==> final(self).data.failed(),
        r is Ok && slots@.len() > 0 ==> !final(self).data.failed() && !old(self).data.failed() && final(self).out() == old(self).out().push(Rec::Storage(slots@))
            && final(self).stats == (ExecStateStats { storage_slots: (old(self).stats.storage_slots + slots@.len()) as u64, ..old(self).stats }),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackWriter :: fn append_storage_chunk_owned" ret=r
//@spec
    requires old(self).stats.storage_slots + slots@.len() <= u64::MAX,
    ensures
        final(self).data.version() == old(self).data.version(),
        slots@.len() == 0 ==> r is Ok && *final(self) == *old(self),
        slots@.len() > STORAGE_CHUNK_SLOTS ==> (r matches Err(e) && e is OversizedStorageChunk && *final(self) == *old(self)),
        r is Err && slots@.len() <= STORAGE_CHUNK_SLOTS ==> final(self).data.failed(),
        r is Ok && slots@.len() > 0 ==> !final(self).data.failed() && !old(self).data.failed() && final(self).out() == old(self).out().push(Rec::Storage(slots@))
            && final(self).stats == (ExecStateStats { storage_slots: (old(self).stats.storage_slots + slots@.len()) as u64, ..old(self).stats }),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackWriter :: fn append_account" ret=r
//@forvec 0
//@spec
    requires old(self).room(slots_of(account.account).len()),
    ensures
        final(self).data.version() == old(self).data.version(),
        r is Err ==> final(self).data.failed(),
        r is Ok ==> !final(self).data.failed() && !old(self).data.failed() && final(self).out() =~= old(self).out() + final(self).out().skip(old(self).out().len() as int) && is_acct(final(self).out().skip(old(self).out().len() as int), *account),
        r is Ok ==> final(self).stats == (ExecStateStats { account_count: (old(self).stats.account_count + 1) as u64, storage_slots: (old(self).stats.storage_slots + slots_of(account.account).len()) as u64, bytecodes: (old(self).stats.bytecodes + (if has_code(account.account.code) { 1int } else { 0 })) as u64 }),
//@loop 0 iter=it
    invariant
        account.account.storage == Some(*storage),
        it.seq().len() == vx_l.len(), forall|i: int| 0 <= i < vx_l.len() ==> *((#[trigger] it.seq()[i]).0) == vx_l[i].0 && *(it.seq()[i].1) == vx_l[i].1,
        vx_l == pairs(storage@), chunk@.len() < STORAGE_CHUNK_SLOTS, full(vx_c), flat(vx_c) + chunk@ =~= vx_l.take(it.index()),
        !self.data.failed(), self.data.version() == old(self).data.version(), self.out() =~= vx_o + as_recs(vx_c),
        self.stats == (ExecStateStats { storage_slots: (vx_t.storage_slots + flat(vx_c).len()) as u64, ..vx_t }),
        vx_t.storage_slots + vx_l.len() <= u64::MAX,
//@beforeloop 0
    let ghost mut vx_c: Seq<Slots> = seq![];
    let ghost vx_l = pairs(storage@);
    let ghost vx_o = self.out();
    let ghost vx_t = self.stats;
    proof { assert(flat(vx_c) =~= seq![]); }
//@loophead 0
    let ghost vx_in = chunk@;
    let ghost vx_flat = flat(vx_c);
    proof { assert(vx_l.take(it.index() + 1) =~= vx_l.take(it.index()).push(vx_l[it.index()])); assert(flat(vx_c) + chunk@.push(vx_l[it.index()]) =~= (flat(vx_c) + chunk@).push(vx_l[it.index()])); }
//@loopend 0
    proof {
        if vx_in.len() + 1 == STORAGE_CHUNK_SLOTS {
            let c = vx_in.push(vx_l[it.index()]);
            let vx_n = vx_c.push(c);
            assert(vx_n.drop_last() =~= vx_c);
            assert(as_recs(vx_n) =~= as_recs(vx_c).push(Rec::Storage(c)));
            vx_c = vx_n;
        }
    }
//@afterloop 0
    proof { lemma_chunks(vx_c, chunk@); assert(vx_l.take(vx_l.len() as int) =~= vx_l); }
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackWriter :: fn finish" ret=r
//@desugar res.map_err
//@spec
    ensures r matches Ok(t) ==> t == self.stats && exists|d: Pack<ExecStateRecord>| #[trigger] d.durable() && vw(d.recs()) == self.out().push(Rec::End(self.stats)) && d.version() == self.data.version(),
//@end
}
// ---- reading
pub type Item = Result<ExecStateRecord, ExecStatePackError>;
/// a record as the reader hands it on: an oversized storage chunk is an error
pub open spec fn vet(x: Result<ExecStateRecord, FetchError>) -> Item {
    match x {
        Err(e) => Err(ExecStatePackError::Read(e)),
        Ok(ExecStateRecord::Storage(c)) => if c@.len() > STORAGE_CHUNK_SLOTS { Err(ExecStatePackError::OversizedStorageChunk { len: c@.len() as usize, max: STORAGE_CHUNK_SLOTS }) } else { Ok(ExecStateRecord::Storage(c)) },
        Ok(r) => Ok(r),
    }
}
pub open spec fn vets(s: Seq<Result<ExecStateRecord, FetchError>>) -> Seq<Item> { s.map_values(|x: Result<ExecStateRecord, FetchError>| vet(x)) }
/// the slots of the storage records at the front, and what follows them
pub open spec fn gather(q: Seq<Item>) -> (Slots, Seq<Item>) decreases q.len() {
    if q.len() == 0 { (seq![], q) } else { match q[0] { Ok(ExecStateRecord::Storage(c)) => (c@ + gather(q.skip(1)).0, gather(q.skip(1)).1), _ => (seq![], q) } }
}
/// what the next account is, and what is left: its header record, then all storage records up to the next other record
pub open spec fn acct_result(q: Seq<Item>, r: Option<Result<ExecStateAccount, ExecStatePackError>>, q2: Seq<Item>, done: bool) -> bool {
    if q.len() == 0 { r == Some(Err::<ExecStateAccount, _>(ExecStatePackError::MissingFooter)) && done }
    else { match q[0] {
        Err(e) => r == Some(Err::<ExecStateAccount, _>(e)) && done,
        Ok(ExecStateRecord::End(_)) => r is None && done,
        Ok(ExecStateRecord::Account(h)) => {
            let (s, t) = gather(q.skip(1));
            if t.len() == 0 { r == Some(Err::<ExecStateAccount, _>(ExecStatePackError::MissingFooter)) && done }
            else { match t[0] { Err(e) => r == Some(Err::<ExecStateAccount, _>(e)) && done, Ok(_) => !done && q2 =~= t && (r matches Some(Ok(a)) && is_account(a, h, s)) } }
        }
        Ok(_) => r == Some(Err::<ExecStateAccount, _>(ExecStatePackError::CorruptPack)) && done,
    } }
}
pub open spec fn entry_result(q: Seq<Item>, r: Option<Result<StateEntry, ExecStatePackError>>, q2: Seq<Item>, done: bool) -> bool {
    if q.len() == 0 { r == Some(Err::<StateEntry, _>(ExecStatePackError::MissingFooter)) && done }
    else { match q[0] {
        Err(e) => r == Some(Err::<StateEntry, _>(e)) && done,
        Ok(ExecStateRecord::End(_)) => r is None && done,
        Ok(ExecStateRecord::Account(h)) => !done && q2 =~= q.skip(1) && r == Some(Ok::<StateEntry, ExecStatePackError>(StateEntry::Account(ExecStateAccountMeta { address: h.address, nonce: h.nonce, balance: be_u(h.balance.0@), code: h.code }))),
        Ok(ExecStateRecord::Storage(c)) => !done && q2 =~= q.skip(1) && r == Some(Ok::<StateEntry, ExecStatePackError>(StateEntry::Storage(c))),
        Ok(_) => r == Some(Err::<StateEntry, _>(ExecStatePackError::CorruptPack)) && done,
    } }
}
/// the file starts with this meta record and exactly its headers, in order, and they cover the lookback
pub open spec fn head_of(s: Seq<Result<ExecStateRecord, FetchError>>, m: ExecStateMeta, h: Seq<ExecHeader>) -> bool {
    &&& s.len() > h.len() && s[0] == Ok::<ExecStateRecord, FetchError>(ExecStateRecord::Meta(m))
    &&& h.len() == m.header_count && 1 <= h.len() <= 4096 && (h.len() >= m.block_number || h.len() >= 256)
    &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] s[i + 1] matches Ok(ExecStateRecord::Header(b)) && unrlp(b@) == Some(h[i]))
}
pub open spec fn agree(m: ExecStateMeta, h: Seq<ExecHeader>) -> bool { h[0].state_root == m.state_root && h[0].number == m.block_number && hhash(h[0]) == m.block_hash }
pub open spec fn items(q: Seq<Item>) -> Seq<Rec> { q.map_values(|x: Item| match x { Ok(r) => rv(r), Err(_) => Rec::Header(seq![]) }) }
pub open spec fn acct_or_slots(x: Item) -> bool { x matches Ok(r) && (r is Account || r is Storage) }
/// n account and storage records, an account first, then a footer with the right account count
pub open spec fn good_body(q: Seq<Item>, n: int, f: ExecStateStats) -> bool {
    &&& 0 <= n < q.len() && q[n] == Ok::<ExecStateRecord, ExecStatePackError>(ExecStateRecord::End(f))
    &&& forall|i: int| 0 <= i < n ==> acct_or_slots(#[trigger] q[i])
    &&& n > 0 ==> (q[0] matches Ok(ExecStateRecord::Account(_)))
    &&& f.account_count == n_acc(items(q.take(n)))
}
pub open spec fn verified(s: Seq<Result<ExecStateRecord, FetchError>>, m: ExecStateMeta, h: Seq<ExecHeader>, n: int, f: ExecStateStats) -> bool {
    head_of(s, m, h) && agree(m, h) && good_body(vets(s.skip(1 + h.len() as int)), n, f)
}
pub proof fn lemma_head_unique(s: Seq<Result<ExecStateRecord, FetchError>>, m: ExecStateMeta, h: Seq<ExecHeader>, m2: ExecStateMeta, h2: Seq<ExecHeader>)
    requires head_of(s, m, h), head_of(s, m2, h2),
    ensures m == m2, h == h2,
{
    assert forall|i: int| 0 <= i < h.len() implies h[i] == h2[i] by { assert(s[i + 1] is Ok); }
    assert(h =~= h2);
}
pub open spec fn setup_error(e: ExecStatePackError) -> bool { e is Open || e is LoadHeader || e is Io }
pub open spec fn content(p: &Path) -> Seq<Result<ExecStateRecord, FetchError>> { disk::<ExecStateRecord>(joined(p, DATA_NAME@)) }
impl ExecStatePackReader {
    /// the records still to come
    pub open spec fn q(self) -> Seq<Item> { match self.pending { Some(p) => seq![Ok::<ExecStateRecord, ExecStatePackError>(p)] + vets(self.iter.rest()), None => vets(self.iter.rest()) } }
    pub open spec fn same(self, o: Self) -> bool { self.meta == o.meta && self.headers == o.headers }
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackReader :: fn open" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /path: P\b/ => path: &Path
//@sub? /path\.as_ref\(\)/ => path
//@desugar bool.then_some
//@desugar opt.ok_or
//@loop 0 iter=it
    invariant
        vx_s == content(path), vx_s.len() > 0, vx_s[0] == Ok::<ExecStateRecord, FetchError>(ExecStateRecord::Meta(meta)),
        1 <= meta.header_count <= 4096, meta.header_count >= meta.block_number || meta.header_count >= 256,
        headers@.len() == it.index(), vx_s.len() >= 1 + headers@.len(), iter.rest() =~= vx_s.skip(1 + headers@.len() as int), it.seq().len() == meta.header_count,
        forall|i: int| 0 <= i < headers@.len() ==> (#[trigger] vx_s[i + 1] matches Ok(ExecStateRecord::Header(b)) && unrlp(b@) == Some(headers@[i])),
//@loophead 0
    proof {
        let k = headers@.len() as int;
        if iter.rest().len() == 0 { assert(vx_s.len() == 1 + k); } else { assert(iter.rest()[0] == vx_s[k + 1]); }
    }
//@after? /let mut iter = [^;]*;/
    let ghost vx_s = iter.rest();
//@spec
    ensures
        r matches Ok(k) ==> head_of(content(path), k.meta, k.headers@) && !k.done && k.q() =~= vets(content(path).skip(1 + k.headers@.len() as int)),
        // a pack whose head is in order is refused only when it cannot be opened at all
        r matches Err(e) ==> setup_error(e) || forall|m: ExecStateMeta, h: Seq<ExecHeader>| !#[trigger] head_of(content(path), m, h),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackReader :: fn meta" ret=r
//@spec
    ensures *r == self.meta,
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackReader :: fn headers" ret=r
//@spec
    ensures r@ == self.headers@,
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackReader :: fn snapshot_header" ret=r
//@spec
    requires self.headers@.len() > 0,
    ensures *r == self.headers@[0],
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackReader :: fn pull" ret=r
//@desugar res.map
//@spec
    ensures
        final(self).same(*old(self)), final(self).done == old(self).done, final(self).pending is None,
        old(self).q().len() == 0 ==> r is None && final(self).q().len() == 0,
        old(self).q().len() > 0 ==> r == Some(old(self).q()[0]) && final(self).q() =~= old(self).q().skip(1),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackReader :: fn next_account" ret=r
//@sub? /(\w+)\.extend\((\w+)\)/ => vx_extend(&mut \1, \2)
//@spec
    ensures
        final(self).same(*old(self)),
        old(self).done ==> r is None && final(self).done,
        !old(self).done ==> acct_result(old(self).q(), r, final(self).q(), final(self).done),
//@loop 0
    invariant
        old(self).q().len() > 0, old(self).q()[0] is Ok, old(self).q()[0]->Ok_0 is Account,
        self.same(*old(self)), !self.done, !old(self).done, vx_q == old(self).q().skip(1),
        storage@ + gather(self.q()).0 =~= gather(vx_q).0, gather(self.q()).1 == gather(vx_q).1,
    ensures
        storage@ == gather(vx_q).0, self.q() =~= gather(vx_q).1, self.same(*old(self)), !self.done, self.q().len() > 0, self.q()[0] is Ok,
    decreases self.q().len(),
//@beforeloop 0
    let ghost vx_q = self.q();
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackReader :: fn next_entry" ret=r
//@spec
    ensures
        final(self).same(*old(self)),
        old(self).done ==> r is None && final(self).done,
        !old(self).done ==> entry_result(old(self).q(), r, final(self).q(), final(self).done),
//@end
//@fn file=crates/storage/src/exec_state_pack.rs path="impl ExecStatePackReader :: fn verify" ret=r
//@sub? /<P: AsRef<Path>>/ =>
//@sub? /path: P\b/ => path: &Path
//@desugar opt.is_some_and
//@after? /let mut reader = [^;]*;/
    proof {
        assert forall|m: ExecStateMeta, h: Seq<ExecHeader>, n: int, f: ExecStateStats| #[trigger] verified(content(path), m, h, n, f) implies m == reader.meta && h == reader.headers@ && good_body(reader.q(), n, f) by {
            lemma_head_unique(content(path), m, h, reader.meta, reader.headers@);
        }
    }
//@afterloop 0
    proof {
        assert forall|m: ExecStateMeta, h: Seq<ExecHeader>, n: int, f: ExecStateStats| #[trigger] verified(content(path), m, h, n, f) implies n == vx_n && f == vx_l0 by {
            assert(good_body(vx_q, n, f));
            if n < vx_n { assert(acct_or_slots(vx_q[n])); }
            if vx_n < n { assert(acct_or_slots(vx_q[vx_n])); }
        }
        assert(vx_l0.account_count == counted.account_count ==> good_body(vx_q, vx_n, vx_l0) && verified(content(path), reader.meta, reader.headers@, vx_n, vx_l0));
    }
//@loop 0
    invariant_except_break
        reader.q() =~= vx_q.skip(vx_n),
        counted.account_count == n_acc(items(vx_q.take(vx_n))), counted.storage_slots == n_slot(items(vx_q.take(vx_n))), counted.bytecodes == n_code(items(vx_q.take(vx_n))),
        counted.account_count <= vx_n, counted.bytecodes <= vx_n, counted.storage_slots <= vx_n * 65536,
        saw_account == (vx_n > 0), vx_n <= vx_q.len(),
    invariant
        0 <= vx_n, vx_q.len() < 0x100_0000_0000,
        vx_q == vets(content(path).skip(1 + reader.headers@.len() as int)), head_of(content(path), reader.meta, reader.headers@), agree(reader.meta, reader.headers@),
        vx_n > 0 ==> vx_n <= vx_q.len() && (vx_q[0] matches Ok(ExecStateRecord::Account(_))),
        forall|i: int| 0 <= i < vx_n ==> acct_or_slots(#[trigger] vx_q[i]),
        forall|m: ExecStateMeta, h: Seq<ExecHeader>, n: int, f: ExecStateStats| #[trigger] verified(content(path), m, h, n, f) ==> good_body(vx_q, n, f),
    ensures
        vx_n < vx_q.len(), vx_q[vx_n] == Ok::<ExecStateRecord, ExecStatePackError>(ExecStateRecord::End(vx_l0)),
        counted.account_count == n_acc(items(vx_q.take(vx_n))), counted.storage_slots == n_slot(items(vx_q.take(vx_n))), counted.bytecodes == n_code(items(vx_q.take(vx_n))),
    decreases reader.q().len(),
//@beforeloop 0
    let ghost vx_q = reader.q();
    let ghost mut vx_n: int = 0;
    proof { assert(vx_q.take(0) =~= seq![]); assert(items(seq![]) =~= seq![]); }
//@loophead 0
    proof {
        if reader.q().len() > 0 {
            assert(reader.q()[0] == vx_q[vx_n]);
            assert(vx_q.take(vx_n + 1) =~= vx_q.take(vx_n).push(vx_q[vx_n]));
            assert(items(vx_q.take(vx_n + 1)) =~= items(vx_q.take(vx_n)).push(items(vx_q)[vx_n]));
            lemma_n_push(items(vx_q.take(vx_n)), items(vx_q)[vx_n]);
            assert(reader.q().skip(1) =~= vx_q.skip(vx_n + 1));
            assert(vx_n < 0x100_0000_0000);
            assert(vx_q[vx_n] == vet(content(path).skip(1 + reader.headers@.len() as int)[vx_n]));
            assert((vx_n + 1) * 65536 == vx_n * 65536 + 65536) by (nonlinear_arith);
        }
    }
//@loopend 0
    proof { vx_n = vx_n + 1; }
//@spec
    requires content(path).len() < 0x100_0000_0000,
    ensures
        r matches Ok(rep) ==> exists|m: ExecStateMeta, h: Seq<ExecHeader>, n: int, f: ExecStateStats| #[trigger] verified(content(path), m, h, n, f)
            && ({ let b = items(vets(content(path).skip(1 + h.len() as int)).take(n)); rep.header_count == h.len() && rep.account_count == n_acc(b) && rep.storage_slots == n_slot(b) && rep.bytecodes == n_code(b) }),
        r matches Err(e) ==> setup_error(e) || forall|m: ExecStateMeta, h: Seq<ExecHeader>, n: int, f: ExecStateStats| !#[trigger] verified(content(path), m, h, n, f),
//@end
}
// ---- what was written is what is read
/// the items are the records, none damaged, none oversized
pub open spec fn clean(q: Seq<Item>, rs: Seq<Rec>) -> bool {
    q.len() == rs.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i] matches Ok(r) && rv(r) == rs[i])
}
/// the data file yields exactly the records of a writer, and none of them is oversized: the items are clean
pub proof fn lemma_clean(s: Seq<Result<ExecStateRecord, FetchError>>, rs: Seq<Rec>)
    requires
        s.len() == rs.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] matches Ok(r) && rv(r) == rs[i]),
        forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i] matches Rec::Storage(c) ==> c.len() <= STORAGE_CHUNK_SLOTS),
    ensures clean(vets(s), rs),
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] vets(s)[i] matches Ok(r) && rv(r) == rs[i]) by { assert(s[i] is Ok); assert(rv(s[i]->Ok_0) == rs[i]); }
}
pub proof fn lemma_chunk_sizes(l: Slots)
    ensures forall|i: int| 0 <= i < chunks(l).len() ==> (#[trigger] chunks(l)[i] matches Rec::Storage(c) && 0 < c.len() <= STORAGE_CHUNK_SLOTS),
    decreases l.len(),
{
    if l.len() > STORAGE_CHUNK_SLOTS {
        let t = l.skip(STORAGE_CHUNK_SLOTS as int);
        lemma_chunk_sizes(t);
        assert forall|i: int| 0 <= i < chunks(l).len() implies (#[trigger] chunks(l)[i] matches Rec::Storage(c) && 0 < c.len() <= STORAGE_CHUNK_SLOTS) by { if i > 0 { assert(chunks(l)[i] == chunks(t)[i - 1]); } }
    }
}
pub proof fn lemma_gather(q: Seq<Item>, l: Slots, rest: Seq<Rec>)
    requires clean(q, chunks(l) + rest), rest.len() > 0, !(rest[0] is Storage),
    ensures gather(q).0 =~= l, clean(gather(q).1, rest), gather(q).1 =~= q.skip(chunks(l).len() as int),
    decreases l.len(),
{
    let all = chunks(l) + rest;
    assert(q[0] is Ok && rv(q[0]->Ok_0) == all[0]);
    if l.len() == 0 { assert(all =~= rest); assert(q.skip(0) =~= q); }
    else {
        lemma_chunk_sizes(l);
        let n = STORAGE_CHUNK_SLOTS as int;
        let t = if l.len() <= n { seq![] } else { l.skip(n) };
        let c = if l.len() <= n { l } else { l.take(n) };
        assert(all[0] == Rec::Storage(c));
        assert(chunks(l) =~= seq![Rec::Storage(c)] + chunks(t));
        assert(all.skip(1) =~= chunks(t) + rest);
        let r = q.skip(1);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i] matches Ok(x) && rv(x) == (chunks(t) + rest)[i]) by { assert(r[i] == q[i + 1]); assert(q[i + 1] is Ok); assert(all[i + 1] == all.skip(1)[i]); }
        lemma_gather(r, t, rest);
        assert(c + t =~= l);
        assert(r.skip(chunks(t).len() as int) =~= q.skip(chunks(l).len() as int));
    }
}
pub proof fn lemma_map_of(s: Slots)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0,
    ensures
        forall|k: B256| map_of(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        forall|i: int| 0 <= i < s.len() ==> map_of(s)[(#[trigger] s[i]).0] == s[i].1,
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(d[i] == s[i] && d[j] == s[j]); }
        lemma_map_of(d);
        assert forall|k: B256| map_of(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if map_of(s).contains_key(k) { if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(map_of(d).contains_key(k)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(s[i].0 == k); } }
            if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; if i < s.len() - 1 { assert(d[i].0 == k); assert(map_of(d).contains_key(k)); } assert(map_of(s).contains_key(k)); }
        }
        assert forall|i: int| 0 <= i < s.len() implies map_of(s)[(#[trigger] s[i]).0] == s[i].1 by { if i < s.len() - 1 { assert(d[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); } }
    }
}
pub proof fn lemma_pairs(m: Map<B256, B256>)
    ensures map_of(pairs(m)) =~= m, pairs(m).len() == m.dom().len(),
{
    let ks = sorted_keys(m.dom());
    let s = pairs(m);
    vx_btree::axiom_sorted_keys(m.dom());
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(ks[i] != ks[j]); }
    lemma_map_of(s);
    assert forall|k: B256| map_of(s).contains_key(k) <==> m.contains_key(k) by {
        if m.contains_key(k) { assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(s[i].0 == k); }
        if map_of(s).contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(ks[i] == k); assert(m.dom().contains(ks[i])); }
    }
    assert forall|k: B256| m.contains_key(k) implies map_of(s)[k] == m[k] by { assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(s[i].0 == k); assert(s[i].1 == m[k]); }
}
/// two accounts with the same values; no storage and empty storage are the same
pub open spec fn same_account(r: ExecStateAccount, a: ExecStateAccount) -> bool {
    &&& r.address == a.address && r.account.nonce == Some(nonce_of(a.account)) && r.account.balance == a.account.balance && r.account.code == a.account.code
    &&& slots_map(r.account) == slots_map(a.account)
}
pub open spec fn slots_map(g: GenesisAccount) -> Map<B256, B256> { match g.storage { Some(m) => m@, None => Map::empty() } }
/// an account's records, whatever follows them, read back as that account, whole, and nothing of what follows is lost
pub proof fn lemma_read_back(q: Seq<Item>, rs: Seq<Rec>, rest: Seq<Rec>, a: ExecStateAccount, r: Option<Result<ExecStateAccount, ExecStatePackError>>, q2: Seq<Item>, done: bool)
    requires
        is_acct(rs, a), rest.len() > 0, !(rest[0] is Storage), clean(q, rs + rest),
        acct_result(q, r, q2, done),
    ensures
        !done, clean(q2, rest), r matches Some(Ok(x)) && same_account(x, a),
{
    let l = slots_of(a.account);
    let all = rs + rest;
    assert(q[0] is Ok && rv(q[0]->Ok_0) == all[0]);
    let t = q.skip(1);
    assert(all.skip(1) =~= chunks(l) + rest);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] matches Ok(x) && rv(x) == (chunks(l) + rest)[i]) by { assert(t[i] == q[i + 1]); assert(q[i + 1] is Ok); assert(all[i + 1] == all.skip(1)[i]); }
    lemma_gather(t, l, rest);
    assert(gather(t).1[0] is Ok);
    match a.account.storage { Some(m) => { lemma_pairs(m@); if l.len() == 0 { assert(m@ =~= Map::empty()); } } None => {} }
}
/// the end record ends the stream
pub proof fn lemma_read_end(q: Seq<Item>, t: ExecStateStats, r: Option<Result<ExecStateAccount, ExecStatePackError>>, q2: Seq<Item>, done: bool)
    requires q.len() > 0, clean(q, seq![Rec::End(t)] + Seq::new((q.len() - 1) as nat, |i: int| rv(q[i + 1]->Ok_0))) || (q[0] matches Ok(x) && rv(x) == Rec::End(t)), acct_result(q, r, q2, done),
    ensures r is None, done,
{ assert(q[0] is Ok); }
/// one account after another, as append_account writes them
pub open spec fn is_accts(rs: Seq<Rec>, l: Seq<ExecStateAccount>) -> bool decreases l.len() {
    if l.len() == 0 { rs.len() == 0 } else { exists|k: int| 0 <= k <= rs.len() && is_accts(#[trigger] rs.take(k), l.drop_last()) && is_acct(rs.skip(k), l.last()) }
}
pub proof fn lemma_n_add(a: Seq<Rec>, b: Seq<Rec>)
    ensures n_acc(a + b) == n_acc(a) + n_acc(b), n_slot(a + b) == n_slot(a) + n_slot(b), n_code(a + b) == n_code(a) + n_code(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_n_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_n_chunks(l: Slots)
    ensures n_acc(chunks(l)) == 0, n_code(chunks(l)) == 0, n_slot(chunks(l)) == l.len(),
    decreases l.len(),
{
    if l.len() == 0 {}
    else if l.len() <= STORAGE_CHUNK_SLOTS { assert(seq![Rec::Storage(l)] =~= Seq::<Rec>::empty().push(Rec::Storage(l))); lemma_n_push(Seq::empty(), Rec::Storage(l)); }
    else {
        let c = Rec::Storage(l.take(STORAGE_CHUNK_SLOTS as int));
        lemma_n_chunks(l.skip(STORAGE_CHUNK_SLOTS as int));
        assert(seq![c] =~= Seq::<Rec>::empty().push(c)); lemma_n_push(Seq::empty(), c);
        lemma_n_add(seq![c], chunks(l.skip(STORAGE_CHUNK_SLOTS as int)));
    }
}
pub open spec fn total_slots(l: Seq<ExecStateAccount>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { total_slots(l.drop_last()) + slots_of(l.last().account).len() } }
/// the records of a list of accounts count as many accounts, slots and codes as the accounts have: the footer agrees with the body
pub proof fn lemma_tally(rs: Seq<Rec>, l: Seq<ExecStateAccount>)
    requires is_accts(rs, l),
    ensures
        n_acc(rs) == l.len(), n_slot(rs) == total_slots(l),
        forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i] is Account || rs[i] is Storage),
        rs.len() > 0 ==> rs[0] is Account,
        forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i] matches Rec::Storage(c) ==> c.len() <= STORAGE_CHUNK_SLOTS),
    decreases l.len(),
{
    if l.len() > 0 {
        let k = choose|k: int| 0 <= k <= rs.len() && is_accts(#[trigger] rs.take(k), l.drop_last()) && is_acct(rs.skip(k), l.last());
        let (a, b) = (rs.take(k), rs.skip(k));
        lemma_tally(a, l.drop_last());
        let cs = chunks(slots_of(l.last().account));
        lemma_n_chunks(slots_of(l.last().account)); lemma_chunk_sizes(slots_of(l.last().account));
        assert(b =~= Seq::<Rec>::empty().push(b[0]) + cs);
        lemma_n_push(Seq::empty(), b[0]); lemma_n_add(Seq::empty().push(b[0]), cs); lemma_n_add(a, b);
        assert(rs =~= a + b);
        assert forall|i: int| 0 <= i < rs.len() implies ((#[trigger] rs[i] is Account || rs[i] is Storage) && (rs[i] matches Rec::Storage(c) ==> c.len() <= STORAGE_CHUNK_SLOTS)) by { if i < k { assert(rs[i] == a[i]); } else if i == k { assert(rs[i] == b[0]); } else { assert(rs[i] == b.skip(1)[i - k - 1]); } }
        if k > 0 { assert(rs[0] == a[0]); } else { assert(rs[0] == b[0]); }
    }
}
/// what create, append_account for each account and finish leave in a fresh file is a pack verify accepts
pub proof fn lemma_written_verifies(s: Seq<Result<ExecStateRecord, FetchError>>, hd: Seq<Rec>, root: B256, h: Seq<ExecHeader>, body: Seq<Rec>, l: Seq<ExecStateAccount>, f: ExecStateStats)
    requires
        is_head(hd, root, h), h.len() <= 4096, h.len() >= h[0].number || h.len() >= 256,
        is_accts(body, l), f.account_count == l.len(),
        clean_raw(s, hd + body + seq![Rec::End(f)]),
    ensures verified(s, ExecStateMeta { state_root: root, block_number: h[0].number, block_hash: hhash(h[0]), header_count: h.len() as u32 }, h, body.len() as int, f),
{
    let m = ExecStateMeta { state_root: root, block_number: h[0].number, block_hash: hhash(h[0]), header_count: h.len() as u32 };
    let rs = hd + body + seq![Rec::End(f)];
    lemma_tally(body, l);
    assert(s[0] is Ok && rv(s[0]->Ok_0) == rs[0]); assert(rs[0] == hd[0]);
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] s[i + 1] matches Ok(ExecStateRecord::Header(b)) && unrlp(b@) == Some(h[i])) by { assert(s[i + 1] is Ok); assert(rs[i + 1] == hd[i + 1]); ax_rlp(h[i]); }
    assert(head_of(s, m, h));
    let b = s.skip(1 + h.len() as int);
    let q = vets(b);
    let n = body.len() as int;
    assert forall|i: int| 0 <= i <= n implies (#[trigger] q[i] matches Ok(r) && rv(r) == (if i < n { body[i] } else { Rec::End(f) })) by {
        assert(q[i] == vet(s[1 + h.len() + i])); assert(s[1 + h.len() + i] is Ok); assert(rs[1 + h.len() + i] == (if i < n { body[i] } else { Rec::End(f) }));
    }
    assert forall|i: int| 0 <= i < n implies acct_or_slots(#[trigger] q[i]) by { assert(body[i] is Account || body[i] is Storage); }
    assert(items(q.take(n)) =~= body) by { assert forall|i: int| 0 <= i < n implies items(q.take(n))[i] == body[i] by { assert(q[i] is Ok); } }
    assert(q[n] is Ok);
    if n > 0 { assert(q[0] is Ok); }
}
pub open spec fn clean_raw(s: Seq<Result<ExecStateRecord, FetchError>>, rs: Seq<Rec>) -> bool {
    s.len() == rs.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] matches Ok(r) && rv(r) == rs[i])
}
/// a body verify accepts never makes next_account fail, and what is left is again such a body
pub proof fn lemma_verified_reads(q: Seq<Item>, n: int, f: ExecStateStats, r: Option<Result<ExecStateAccount, ExecStatePackError>>, q2: Seq<Item>, done: bool) -> (k: int)
    requires
        0 <= n < q.len(), q[n] == Ok::<ExecStateRecord, ExecStatePackError>(ExecStateRecord::End(f)), forall|i: int| 0 <= i < n ==> acct_or_slots(#[trigger] q[i]),
        n > 0 ==> (q[0] matches Ok(ExecStateRecord::Account(_))),
        acct_result(q, r, q2, done),
    ensures
        n == 0 ==> r is None && done,
        n > 0 ==> 0 < k <= n && !done && (r matches Some(Ok(_))) && q2 =~= q.skip(k) && (k < n ==> (q2[0] matches Ok(ExecStateRecord::Account(_)))),
{
    if n == 0 { 0 } else {
        let k = lemma_gather_stops(q.skip(1), n - 1, f);
        assert(q.skip(1).skip(k) =~= q.skip(k + 1));
        if k < n - 1 { assert(q.skip(1)[k] == q[k + 1]); assert(acct_or_slots(q[k + 1])); } else { assert(q.skip(1)[k] == q[n]); }
        k + 1
    }
}
pub proof fn lemma_gather_stops(q: Seq<Item>, n: int, f: ExecStateStats) -> (k: int)
    requires 0 <= n < q.len(), q[n] == Ok::<ExecStateRecord, ExecStatePackError>(ExecStateRecord::End(f)), forall|i: int| 0 <= i < n ==> acct_or_slots(#[trigger] q[i]),
    ensures 0 <= k <= n, gather(q).1 =~= q.skip(k), k < n ==> !(q[k] matches Ok(ExecStateRecord::Storage(_))),
    decreases n,
{
    if n == 0 { assert(q.skip(0) =~= q); 0 }
    else if q[0] matches Ok(ExecStateRecord::Storage(_)) {
        let t = q.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies acct_or_slots(#[trigger] t[i]) by { assert(t[i] == q[i + 1]); }
        let k = lemma_gather_stops(t, n - 1, f);
        assert(t.skip(k) =~= q.skip(k + 1));
        k + 1
    } else { assert(acct_or_slots(q[0])); assert(q.skip(0) =~= q); 0 }
}
}
fn main() {}
