// the archive module tree and the codec, compiled where they lie in /repo (no text changed)
extern crate self as tn_types;
//@path pub mod codec = crates/types/src/codec.rs
pub use codec::*;
pub use alloy_primitives::{Address, Bytes, B256, U256};
pub use blake3::Hasher as DefaultHashFunction;
//@path pub mod archive = crates/storage/src/archive/mod.rs
