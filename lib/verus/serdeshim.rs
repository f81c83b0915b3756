// serde's data model as far as the hand-written impls of this repository use it: one string or byte string,
// written by a serializer or handed to a visitor. `reads` of a visitor is its specification.
pub mod vx_serde {
    use vstd::prelude::*;
    pub enum Data { Str(Seq<char>), Bytes(Seq<u8>), Other }
    pub open spec fn ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
    pub trait SerError: Sized { fn custom(m: String) -> Self; }
    pub trait Serializer: Sized {
        type Ok; type Error: SerError;
        spec fn human(&self) -> bool;
        /// `r` is the outcome of writing `d` and nothing else
        spec fn wrote(self, d: Data, r: Result<Self::Ok, Self::Error>) -> bool;
        /// what was handed to it could not be written at all
        spec fn gave_up(self, r: Result<Self::Ok, Self::Error>) -> bool;
        fn is_human_readable(&self) -> (r: bool) ensures r == self.human();
        fn serialize_str(self, s: &str) -> (r: Result<Self::Ok, Self::Error>) ensures self.wrote(Data::Str(s@), r);
        fn serialize_bytes(self, b: &[u8]) -> (r: Result<Self::Ok, Self::Error>) ensures self.wrote(Data::Bytes(b@), r);
    }
    pub enum Unexpected<'a> { Str(&'a str), Bytes(&'a [u8]), Other }
    pub trait Error: Sized {
        fn invalid_value<V>(u: Unexpected<'_>, v: &V) -> Self;
        fn invalid_length<V: ?Sized>(n: usize, v: &V) -> Self;
        fn custom<M>(m: M) -> Self;
        fn missing_field(f: &'static str) -> Self;
    }
    pub trait Visitor: Sized {
        type Value;
        /// what the visitor makes of a datum; None: refused
        spec fn reads(self, d: Data) -> Option<Self::Value>;
        fn visit_bytes<E: Error>(self, v: &[u8]) -> (r: Result<Self::Value, E>) ensures ok(r) == self.reads(Data::Bytes(v@));
        fn visit_str<E: Error>(self, v: &str) -> (r: Result<Self::Value, E>) ensures ok(r) == self.reads(Data::Str(v@));
    }
    pub trait Deserializer: Sized {
        type Error: Error;
        spec fn human(&self) -> bool;
        /// the datum that is there; None: the input is not one datum
        spec fn data(&self) -> Data;
        fn is_human_readable(&self) -> (r: bool) ensures r == self.human();
        fn deserialize_str<V: Visitor>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures ok(r) == (if self.data() is Str { v.reads(self.data()) } else { None });
        fn deserialize_bytes<V: Visitor>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures ok(r) == (if self.data() is Bytes { v.reads(self.data()) } else { None });
    }
    #[verifier::external_body] pub fn vx_msg() -> String { unimplemented!() }
    /// base58: text of bytes and back
    pub uninterp spec fn b58(b: Seq<u8>) -> Seq<char>;
    pub uninterp spec fn b58dec(s: Seq<char>) -> Option<Seq<u8>>;
    pub broadcast axiom fn ax_b58(b: Seq<u8>) ensures b58dec(#[trigger] b58(b)) == Some(b);
    /// `bs58` calls
    pub trait AsBytes { spec fn by(&self) -> Seq<u8>; }
    impl AsBytes for Vec<u8> { open spec fn by(&self) -> Seq<u8> { self@ } }
    impl AsBytes for [u8] { open spec fn by(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> AsBytes for [u8; N] { open spec fn by(&self) -> Seq<u8> { self@ } }
    impl<T: AsBytes + ?Sized> AsBytes for &T { open spec fn by(&self) -> Seq<u8> { (**self).by() } }
    #[verifier::external_body] pub struct BsErr { _p: () }
    pub mod bs58 {
        use vstd::prelude::*;
        use super::{b58, b58dec, AsBytes, BsErr};
        pub struct Enc { pub b: Ghost<Seq<u8>> }
        pub struct Dec { pub s: Ghost<Seq<char>> }
        #[verifier::external_body] pub fn encode<B: AsBytes>(b: B) -> (r: Enc) ensures r.b@ == b.by() { unimplemented!() }
        #[verifier::external_body] pub fn decode(s: &str) -> (r: Dec) ensures r.s@ == s@ { unimplemented!() }
        impl Enc { #[verifier::external_body] pub fn into_string(self) -> (r: String) ensures r@ == b58(self.b@) { unimplemented!() } }
        impl Dec {
            #[verifier::external_body] pub fn into_vec(self) -> (r: Result<Vec<u8>, BsErr>) ensures (match r { Ok(v) => Some(v@), Err(_) => None }) == b58dec(self.s@) { unimplemented!() }
            /// into the front of a buffer that must be long enough; the rest of it is left alone
            #[verifier::external_body]
            pub fn onto<const N: usize>(self, out: &mut [u8; N]) -> (r: Result<usize, BsErr>)
                ensures
                    (r is Ok) == (b58dec(self.s@) is Some && b58dec(self.s@)->0.len() <= N),
                    r matches Ok(n) ==> n == b58dec(self.s@)->0.len() && final(out)@ == b58dec(self.s@)->0 + old(out)@.skip(n as int),
            { unimplemented!() }
        }
    }
}
pub use vx_serde::*;
