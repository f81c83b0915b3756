// the functions of crates/types/src/codec.rs under contract, over the assumed contracts of bincode and bcs
pub mod vx_cx {
    use vstd::prelude::*;
    use super::Report;
    pub trait Serialize {}
    pub trait Deserialize<'a>: Sized {}
    impl<T> Serialize for T {}
    impl<'a, T> Deserialize<'a> for T {}
    /// byte order, width of integers, and what to do with bytes left over
    pub struct BOpts { pub big: u8, pub fixint: u8, pub reject: bool }
    /// what bincode writes; `bc_ok`: it can
    pub uninterp spec fn bc<T>(big: u8, fixint: u8, v: T) -> Seq<u8>;
    pub uninterp spec fn bc_ok<T>(v: T) -> bool;
    pub struct DefaultOptions;
    impl DefaultOptions {
        /// little endian, variable width, trailing bytes refused
        #[verifier::external_body]
        pub fn new() -> (r: BOpts) ensures r.big == 0, r.fixint == 0, r.reject { unimplemented!() }
    }
    impl BOpts {
        #[verifier::external_body] pub fn with_big_endian(self) -> (r: BOpts) ensures r == (BOpts { big: 1, ..self }) { unimplemented!() }
        #[verifier::external_body] pub fn with_little_endian(self) -> (r: BOpts) ensures r == (BOpts { big: 0, ..self }) { unimplemented!() }
        #[verifier::external_body] pub fn with_native_endian(self) -> (r: BOpts) ensures r == (BOpts { big: 0, ..self }) { unimplemented!() }
        #[verifier::external_body] pub fn with_fixint_encoding(self) -> (r: BOpts) ensures r == (BOpts { fixint: 1, ..self }) { unimplemented!() }
        #[verifier::external_body] pub fn with_varint_encoding(self) -> (r: BOpts) ensures r == (BOpts { fixint: 0, ..self }) { unimplemented!() }
        #[verifier::external_body] pub fn with_no_limit(self) -> (r: BOpts) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn allow_trailing_bytes(self) -> (r: BOpts) ensures r == (BOpts { reject: false, ..self }) { unimplemented!() }
        #[verifier::external_body] pub fn reject_trailing_bytes(self) -> (r: BOpts) ensures r == (BOpts { reject: true, ..self }) { unimplemented!() }
        #[verifier::external_body]
        pub fn serialize<T>(self, v: &T) -> (r: Result<Vec<u8>, Report>)
            ensures bc_ok(*v) ==> r is Ok, r matches Ok(b) ==> b@ == bc(self.big, self.fixint, *v),
        { unimplemented!() }
        /// inverts `serialize` under the same options; with `reject`, accepts nothing else
        #[verifier::external_body]
        pub fn deserialize<T>(self, b: &[u8]) -> (r: Result<T, Report>)
            ensures
                forall|v: T, be: u8, fx: u8| be == self.big && fx == self.fixint && #[trigger] bc(be, fx, v) == b@ && bc_ok(v) ==> r == Ok::<T, Report>(v),
                self.reject ==> (r matches Ok(v) ==> bc_ok(v) && bc(self.big, self.fixint, v) == b@),
        { unimplemented!() }
    }
    /// what BCS writes
    pub uninterp spec fn bs<T: ?Sized>(v: &T) -> Seq<u8>;
    pub uninterp spec fn bs_ok<T: ?Sized>(v: &T) -> bool;
    #[derive(Debug)] pub struct BcsError { pub e: u64 }
    pub mod bcs {
        use vstd::prelude::*;
        use super::{bs, bs_ok, BcsError, VxWrite};
        pub type Result<T> = core::result::Result<T, BcsError>;
        #[verifier::external_body]
        pub fn to_bytes<T: ?Sized>(v: &T) -> (r: Result<Vec<u8>>) ensures bs_ok(v) ==> r is Ok, r matches Ok(b) ==> b@ == bs(v) { unimplemented!() }
        #[verifier::external_body]
        pub fn from_bytes<T>(b: &[u8]) -> (r: Result<T>)
            ensures forall|v: &T| #[trigger] bs(v) == b@ && bs_ok(v) ==> r == Ok::<T, BcsError>(*v), r matches Ok(v) ==> bs_ok(&v) && bs(&v) == b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn serialized_size<T: ?Sized>(v: &T) -> (r: Result<usize>) ensures bs_ok(v) ==> r is Ok, r matches Ok(n) ==> n == bs(v).len() { unimplemented!() }
        #[verifier::external_body]
        pub fn serialize_into<W: VxWrite + ?Sized, T: ?Sized>(w: &mut W, v: &T) -> (r: Result<()>)
            ensures r is Ok ==> final(w).written() == old(w).written() + bs(v), bs_ok(v) && old(w).infallible() ==> r is Ok { unimplemented!() }
    }
    pub trait VxWrite { spec fn written(&self) -> Seq<u8>; spec fn infallible(&self) -> bool; }
    impl VxWrite for Vec<u8> { open spec fn written(&self) -> Seq<u8> { self@ } open spec fn infallible(&self) -> bool { true } }
}
pub use vx_cx::*;
/// the key encoding of this repository: big endian, fixed width
pub open spec fn enck<T>(v: T) -> Seq<u8> { bc(1, 1, v) }
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
//@fn file=crates/types/src/codec.rs path="fn decode_key" ret=r
//@sub? /bincode::DefaultOptions/ => DefaultOptions
//@spec
    requires exists|v: T| #[trigger] enck(v) == bytes@ && bc_ok(v),
    ensures enck(r) == bytes@, bc_ok(r), forall|v: T| #[trigger] enck(v) == bytes@ && bc_ok(v) ==> r == v,
//@end
//@fn file=crates/types/src/codec.rs path="fn try_decode_key" ret=r
//@sub? /bincode::DefaultOptions/ => DefaultOptions
//@sub? /eyre::Result/ => EResult
//@spec
    ensures
        forall|v: T| #[trigger] enck(v) == bytes@ && bc_ok(v) ==> r == Ok::<T, Report>(v),
        r matches Ok(v) ==> bc_ok(v) && enck(v) == bytes@,
//@end
//@fn file=crates/types/src/codec.rs path="fn encode_key" ret=r
//@sub? /bincode::DefaultOptions/ => DefaultOptions
//@spec
    requires bc_ok(*obj),
    ensures r@ == enck(*obj),
//@end
//@fn file=crates/types/src/codec.rs path="fn decode" ret=r
//@spec
    requires exists|v: &T| #[trigger] bs(v) == bytes@ && bs_ok(v),
    ensures bs(&r) == bytes@, bs_ok(&r), forall|v: &T| #[trigger] bs(v) == bytes@ && bs_ok(v) ==> r == *v,
//@end
//@fn file=crates/types/src/codec.rs path="fn try_decode" ret=r
//@spec
    ensures
        forall|v: &T| #[trigger] bs(v) == bytes@ && bs_ok(v) ==> r == Ok::<T, BcsError>(*v),
        r matches Ok(v) ==> bs_ok(&v) && bs(&v) == bytes@,
//@end
//@fn file=crates/types/src/codec.rs path="fn encode" ret=r
//@sub? /panic!\([^)]*\)/ => vx_panic()
//@desugar res.unwrap_or_else
//@spec
    requires bs_ok(obj),
    ensures r@ == bs(obj),
//@end
//@fn file=crates/types/src/codec.rs path="fn encoded_size" ret=r
//@spec
    ensures bs_ok(obj) ==> r is Ok, r matches Ok(n) ==> n == bs(obj).len(),
//@end
//@fn file=crates/types/src/codec.rs path="fn encode_into_buffer" ret=r
//@sub? /std::io::Write/ => VxWrite
//@spec
    ensures r is Ok ==> final(write).written() == old(write).written() + bs(value), bs_ok(value) && old(write).infallible() ==> r is Ok,
//@end
