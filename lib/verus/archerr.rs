//@item file=crates/storage/src/archive/error/fetch.rs path="enum FetchError"
//@end
//@item file=crates/storage/src/archive/error/insert.rs path="enum AppendError"
//@end
//@item file=crates/storage/src/archive/error/flush.rs path="enum FlushError"
//@end
//@item file=crates/storage/src/archive/error/commit.rs path="enum CommitError"
//@end
//@item file=crates/storage/src/archive/error/load_header.rs path="enum LoadHeaderError"
//@end
//@item file=crates/storage/src/archive/digest_index/bloom.rs path="enum BloomError"
//@end
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for FetchError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> FetchError { FetchError::IO(e) }
}
impl From<io::Error> for FetchError {
//@fn file=crates/storage/src/archive/error/fetch.rs path="impl From<io::Error> for FetchError :: fn from" ret=r trait
//@spec
    ensures r == FetchError::IO(io_err),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for AppendError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> AppendError { AppendError::WriteDataError(e) }
}
impl From<io::Error> for AppendError {
//@fn file=crates/storage/src/archive/error/insert.rs path="impl From<io::Error> for AppendError :: fn from" ret=r trait
//@spec
    ensures r == AppendError::WriteDataError(err),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for LoadHeaderError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> LoadHeaderError { LoadHeaderError::IO(e) }
}
impl From<io::Error> for LoadHeaderError {
//@fn file=crates/storage/src/archive/error/load_header.rs path="impl From<io::Error> for LoadHeaderError :: fn from" ret=r trait
//@spec
    ensures r == LoadHeaderError::IO(io_err),
//@end
}
