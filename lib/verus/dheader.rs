//@item file=crates/storage/src/archive/pack.rs path="const DATA_HEADER_BYTES"
//@end
//@item file=crates/storage/src/archive/pack.rs path="enum PackCompression"
//@attr
#[derive(Clone, Copy)]
//@end
//@item file=crates/storage/src/archive/pack.rs path="struct DataHeader"
//@attr
#[derive(Clone, Copy)]
//@end
impl DataHeader {
//@fn file=crates/storage/src/archive/pack.rs path="impl DataHeader :: fn version" ret=r
//@spec
    ensures r == self.version,
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl DataHeader :: fn uid" ret=r
//@spec
    ensures r == self.uid,
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl DataHeader :: fn appnum" ret=r
//@spec
    ensures r == self.appnum,
//@end
//@fn file=crates/storage/src/archive/pack.rs path="impl DataHeader :: fn compression" ret=r
//@spec
    ensures r == self.compression,
//@end
}
