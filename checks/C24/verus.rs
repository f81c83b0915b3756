// C24: the redb key-value store
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::marker::PhantomData;
use std::sync::Arc;
verus! {
#[derive(Debug)] pub struct Report { pub e: u64 }
pub type EResult<T> = core::result::Result<T, Report>;
//@include lib/verus/codecfns.rs
//@include lib/verus/viter.rs
//@known RwLock ReDatabase ReadTransaction WriteTransaction ReDBIterBuilder vx_same vx_bytes_cmp
pub mod vx_k {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
pub trait KeyT: Sized + Ord + Clone {}
pub trait ValueT: Sized + Clone {}
pub trait Table { type Key: KeyT; type Value: ValueT; const NAME: &'static str; }
// ---- assumed: Ord on keys is a total order with equality, Clone copies
pub uninterp spec fn klt<K>(a: K, b: K) -> bool;
pub broadcast axiom fn ax_ord<K: KeyT>(a: K, b: K)
    ensures <K as PartialOrdSpec>::obeys_partial_cmp_spec(), #[trigger] a.partial_cmp_spec(&b) == Some(if klt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater });
pub broadcast axiom fn ax_tot<K: KeyT>(a: K, b: K) ensures #[trigger] klt(a, b) ==> !klt(b, a) && a != b, !klt(a, b) ==> a == b || klt(b, a);
pub broadcast axiom fn ax_trans<K: KeyT>(a: K, b: K, c: K) ensures #[trigger] klt(a, b) && #[trigger] klt(b, c) ==> klt(a, c);
pub broadcast axiom fn ax_clone<K: Clone>(a: K, b: K) ensures #[trigger] call_ensures(K::clone, (&a,), b) ==> a == b;
}
pub use vx_k::*;
/// bytes compared left to right
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    b.len() > 0 && (a.len() == 0 || a[0] < b[0] || (a[0] == b[0] && lex(a.skip(1), b.skip(1))))
}
#[verifier::external_body]
pub fn vx_bytes_cmp(a: &[u8], b: &[u8]) -> (r: Ordering)
    ensures r == (if lex(a@, b@) { Ordering::Less } else if a@ == b@ { Ordering::Equal } else { Ordering::Greater })
{ unimplemented!() }
/// a key type whose big-endian fixed-width form sorts like the values (assumed of bincode; integers, byte arrays, tuples of them)
pub open spec fn key_type<K>() -> bool {
    &&& forall|k: K| #[trigger] bc_ok(k)
    &&& forall|a: K, b: K| #![trigger enck(a), enck(b)] klt(a, b) <==> lex(enck(a), enck(b))
    &&& forall|a: K, b: K| #![trigger enck(a), enck(b)] enck(a) == enck(b) ==> a == b
}
// ---- what redb asks of a stored type: reading back what was written, comparing like the values
//@item file=crates/storage/src/redb/wraps.rs path="struct KeyWrap"
//@sub? /: KeyT/ =>
//@end
//@item file=crates/storage/src/redb/wraps.rs path="struct ValWrap"
//@sub? /: ValueT/ =>
//@end
impl<K: KeyT> KeyWrap<K> {
//@fn file=crates/storage/src/redb/wraps.rs path="impl Key for KeyWrap :: fn compare" ret=r
//@sub? /(\w+) \.cmp\((\w+)\)/ => vx_bytes_cmp(\1, \2)
//@spec
    ensures
        r == (if lex(data1@, data2@) { Ordering::Less } else if data1@ == data2@ { Ordering::Equal } else { Ordering::Greater }),
        key_type::<K>() ==> forall|a: K, b: K| #![trigger enck(a), enck(b)] data1@ == enck(a) && data2@ == enck(b) ==> r == (if klt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }),
//@end
//@fn file=crates/storage/src/redb/wraps.rs path="impl Value for KeyWrap :: fn fixed_width" ret=r
//@spec
    // variable width: any key may be stored
    ensures r is None,
//@end
//@fn file=crates/storage/src/redb/wraps.rs path="impl Value for KeyWrap :: fn from_bytes" ret=r
//@sub? /-> Self::SelfType<'a> where Self: 'a,/ => -> K
//@spec
    requires exists|k: K| #[trigger] enck(k) == data@ && bc_ok(k),
    ensures forall|k: K| #[trigger] enck(k) == data@ && bc_ok(k) ==> r == k,
//@end
//@fn file=crates/storage/src/redb/wraps.rs path="impl Value for KeyWrap :: fn as_bytes" ret=r
//@sub? /fn as_bytes<'a, 'b: 'a>\(value: &'a Self::SelfType<'b>\) -> Self::AsBytes<'a> where Self: 'a, Self: 'b,/ => fn as_bytes(value: &K) -> Vec<u8>
//@spec
    requires bc_ok(*value),
    ensures r@ == enck(*value),
//@end
}
impl<V: ValueT> ValWrap<V> {
//@fn file=crates/storage/src/redb/wraps.rs path="impl Value for ValWrap :: fn fixed_width" ret=r
//@spec
    ensures r is None,
//@end
//@fn file=crates/storage/src/redb/wraps.rs path="impl Value for ValWrap :: fn from_bytes" ret=r
//@sub? /-> Self::SelfType<'a> where Self: 'a,/ => -> V
//@spec
    requires exists|v: &V| #[trigger] bs(v) == data@ && bs_ok(v),
    ensures forall|v: &V| #[trigger] bs(v) == data@ && bs_ok(v) ==> r == *v,
//@end
//@fn file=crates/storage/src/redb/wraps.rs path="impl Value for ValWrap :: fn as_bytes" ret=r
//@sub? /fn as_bytes<'a, 'b: 'a>\(value: &'a Self::SelfType<'b>\) -> Self::AsBytes<'a> where Self: 'a, Self: 'b,/ => fn as_bytes(value: &V) -> Vec<u8>
//@spec
    requires bs_ok(value),
    ensures r@ == bs(value),
//@end
}
pub mod vx_redb {
use vstd::prelude::*;
use super::*;
// ---- redb, by its documentation (assumed), given the contracts above
/// a database state: one map per table name; `tab`: the table read at its types, `put`: the state with one table replaced
pub struct Db { pub x: u64 }
pub uninterp spec fn tab<K, V>(d: Db, n: Seq<char>) -> Map<K, V>;
pub uninterp spec fn put<K, V>(d: Db, n: Seq<char>, m: Map<K, V>) -> Db;
pub uninterp spec fn has(d: Db, n: Seq<char>) -> bool;
/// the rows of a table in key order
pub open spec fn rows<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> klt((#[trigger] s[i]).0, (#[trigger] s[j]).0)
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// the rows from the first whose key is not below `k`
pub open spec fn from_key<K, V>(m: Map<K, V>, k: K, r: Seq<(K, V)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> klt((#[trigger] r[i]).0, (#[trigger] r[j]).0)
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0) && m[r[i].0] == r[i].1 && !klt(r[i].0, k)
    &&& forall|x: K| #[trigger] m.contains_key(x) && !klt(x, k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == x
}
pub open spec fn rows_rev<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> klt((#[trigger] s[j]).0, (#[trigger] s[i]).0)
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// the record with the highest key
pub open spec fn highest<K, V>(m: Map<K, V>, r: Option<(K, V)>) -> bool {
    match r {
        Some(x) => m.contains_key(x.0) && m[x.0] == x.1 && forall|k: K| #[trigger] m.contains_key(k) ==> k == x.0 || klt(k, x.0),
        None => forall|k: K| !#[trigger] m.contains_key(k),
    }
}
/// the record with the highest key below `k`
pub open spec fn prior<K, V>(m: Map<K, V>, k: K, r: Option<(K, V)>) -> bool {
    match r {
        Some(x) => m.contains_key(x.0) && m[x.0] == x.1 && klt(x.0, k) && forall|y: K| #[trigger] m.contains_key(y) && klt(y, k) ==> y == x.0 || klt(y, x.0),
        None => forall|y: K| #[trigger] m.contains_key(y) ==> !klt(y, k),
    }
}
pub struct ReDatabase { pub x: u64 }
/// `d` was the committed state when a transaction began during the call
pub uninterp spec fn committed(db: ReDatabase, d: Db) -> bool;
/// the call committed `new` over the committed state `old`
pub uninterp spec fn commits(db: ReDatabase, old: Db, new: Db) -> bool;
/// no I/O error
pub uninterp spec fn healthy(db: ReDatabase) -> bool;
/// the table was opened for writing once
pub uninterp spec fn opened(db: ReDatabase, n: Seq<char>) -> bool;
pub struct TableDefinition<K, V> { pub name: Ghost<Seq<char>>, pub p: PhantomData<(K, V)> }
impl<K, V> Clone for TableDefinition<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K, V> Copy for TableDefinition<K, V> {}
impl<K, V> TableDefinition<K, V> { #[verifier::external_body] pub fn new(n: &'static str) -> (r: Self) ensures r.name@ == n@ { unimplemented!() } }
pub struct AccessGuard<V> { pub v: Ghost<V> }
impl<V> AccessGuard<V> { #[verifier::external_body] pub fn value(&self) -> (r: V) ensures r == self.v@ { unimplemented!() } }
pub struct ReadTransaction { pub d: Ghost<Db>, pub ok: Ghost<bool> }
pub struct ReadOnlyTable<K, V> { pub m: Ghost<(Seq<char>, Db)>, pub ok: Ghost<bool>, pub p: PhantomData<(K, V)> }
impl ReadTransaction {
    #[verifier::external_body]
    pub fn open_table<K, V>(&self, td: TableDefinition<K, V>) -> (r: EResult<ReadOnlyTable<K, V>>)
        ensures r matches Ok(t) ==> has(self.d@, td.name@) && t.m@ == (td.name@, self.d@) && t.ok@ == self.ok@, self.ok@ && has(self.d@, td.name@) ==> r is Ok,
    { unimplemented!() }
}
pub type Row<K, V> = EResult<(AccessGuard<K>, AccessGuard<V>)>;
impl<K, V> ReadOnlyTable<KeyWrap<K>, ValWrap<V>> {
    pub open spec fn v(self) -> Map<K, V> { tab::<K, V>(self.m@.1, self.m@.0) }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: EResult<Option<AccessGuard<V>>>)
        ensures r matches Ok(Some(g)) ==> self.v().contains_key(*k) && g.v@ == self.v()[*k], r matches Ok(None) ==> !self.v().contains_key(*k), self.ok@ ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: EResult<bool>) ensures r matches Ok(b) ==> b == (self.v() == Map::<K, V>::empty()), self.ok@ ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: EResult<VIter<Row<K, V>>>)
        ensures self.ok@ ==> r is Ok, self.ok@ && r is Ok ==> all_rows(self.v(), r->Ok_0@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: EResult<Option<(AccessGuard<K>, AccessGuard<V>)>>)
        ensures self.ok@ ==> r is Ok,
            r matches Ok(None) ==> self.v() == Map::<K, V>::empty(),
            r matches Ok(Some(g)) ==> self.v().contains_key(g.0.v@) && g.1.v@ == self.v()[g.0.v@] && forall|k: K| #[trigger] self.v().contains_key(k) ==> k == g.0.v@ || klt(g.0.v@, k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: EResult<Option<(AccessGuard<K>, AccessGuard<V>)>>)
        ensures self.ok@ ==> r is Ok,
            r matches Ok(None) ==> self.v() == Map::<K, V>::empty(),
            r matches Ok(Some(g)) ==> self.v().contains_key(g.0.v@) && g.1.v@ == self.v()[g.0.v@] && forall|k: K| #[trigger] self.v().contains_key(k) ==> k == g.0.v@ || klt(k, g.0.v@),
    { unimplemented!() }
}
/// every row read, in key order
pub open spec fn all_rows<K, V>(m: Map<K, V>, it: Seq<Row<K, V>>) -> bool {
    &&& forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]) is Ok && m.contains_key(it[i]->Ok_0.0.v@) && m[it[i]->Ok_0.0.v@] == it[i]->Ok_0.1.v@
    &&& forall|i: int, j: int| 0 <= i < j < it.len() ==> klt((#[trigger] it[i])->Ok_0.0.v@, (#[trigger] it[j])->Ok_0.0.v@)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < it.len() && (#[trigger] it[i])->Ok_0.0.v@ == k
}
pub open spec fn guards<K, V>(m: Map<K, V>, q: Seq<(AccessGuard<K>, AccessGuard<V>)>) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> m.contains_key((#[trigger] q[i]).0.v@) && m[q[i].0.v@] == q[i].1.v@
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> klt((#[trigger] q[i]).0.v@, (#[trigger] q[j]).0.v@)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0.v@ == k
}
pub struct WriteTransaction { pub db: Ghost<ReDatabase>, pub base: Ghost<Db>, pub cur: Ghost<Db>, pub safe: Ghost<bool> }
pub struct WTable<K, V> { pub m: Ghost<(Seq<char>, Db)>, pub p: PhantomData<(K, V)> }
impl<K, V> WTable<KeyWrap<K>, ValWrap<V>> {
    pub open spec fn v(self) -> Map<K, V> { tab::<K, V>(self.m@.1, self.m@.0) }
    pub open spec fn to(self, o: Self, m: Map<K, V>) -> bool { self.m@ == (o.m@.0, put(o.m@.1, o.m@.0, m)) }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: EResult<Option<AccessGuard<V>>>)
        ensures r matches Ok(Some(g)) ==> self.v().contains_key(*k) && g.v@ == self.v()[*k], r matches Ok(None) ==> !self.v().contains_key(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &K, v: &V) -> (r: EResult<Option<AccessGuard<V>>>)
        ensures r is Ok ==> final(self).to(*old(self), old(self).v().insert(*k, *v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: EResult<Option<AccessGuard<V>>>)
        ensures r is Ok ==> final(self).to(*old(self), old(self).v().remove(*k)),
    { unimplemented!() }
}
/// the state with the table present (empty when it was missing)
pub uninterp spec fn with_table(d: Db, n: Seq<char>) -> Db;
pub uninterp spec fn without_table(d: Db, n: Seq<char>) -> Db;
impl WriteTransaction {
    #[verifier::external_body]
    pub fn open_table<K, V>(&self, td: TableDefinition<K, V>) -> (r: EResult<WTable<K, V>>)
        ensures r matches Ok(t) ==> t.m@ == (td.name@, with_table(self.cur@, td.name@)),
    { unimplemented!() }
    /// the same call where it changes the transaction
    #[verifier::external_body]
    pub fn open_table_mut<'a, K, V>(&'a mut self, td: TableDefinition<K, V>) -> (r: EResult<&'a mut WTable<K, V>>)
        ensures
            final(self).db@ == old(self).db@, final(self).base@ == old(self).base@, final(self).safe@ == old(self).safe@,
            r matches Ok(t) ==> t.m@ == (td.name@, with_table(old(self).cur@, td.name@)) && final(self).cur@ == final(t).m@.1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_table<K, V>(&mut self, td: TableDefinition<K, V>) -> (r: EResult<bool>)
        ensures final(self).db@ == old(self).db@, final(self).base@ == old(self).base@, final(self).safe@ == old(self).safe@, r is Ok ==> final(self).cur@ == without_table(old(self).cur@, td.name@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn commit(self) -> (r: EResult<()>) ensures r is Ok && self.safe@ ==> commits(self.db@, self.base@, self.cur@) { unimplemented!() }
    /// a commit is on disk when it returns only with immediate durability (the default)
    #[verifier::external_body]
    pub fn set_durability(&mut self, d: Durability) -> (r: EResult<()>)
        ensures final(self).db@ == old(self).db@, final(self).base@ == old(self).base@, final(self).cur@ == old(self).cur@, final(self).safe@ ==> old(self).safe@ || d is Immediate, r is Ok ==> final(self).safe@ == (d is Immediate),
    { unimplemented!() }
}
impl ReDatabase {
    #[verifier::external_body]
    pub fn begin_read(&self) -> (r: EResult<ReadTransaction>) ensures r matches Ok(t) ==> committed(*self, t.d@) && t.ok@ == healthy(*self), healthy(*self) ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn begin_write(&self) -> (r: EResult<WriteTransaction>) ensures r matches Ok(t) ==> t.db@ == *self && committed(*self, t.base@) && t.cur@ == t.base@ && t.safe@ { unimplemented!() }
}
pub mod redb { pub use super::Durability; }
#[derive(Clone, Copy)] pub enum Durability { None, Immediate }
pub struct RwLock<T> { pub v: T }
impl<T> RwLock<T> { #[verifier::external_body] pub fn read(&self) -> (r: &T) ensures *r == self.v { unimplemented!() } }
/// ouroboros: the builder runs its closures in order; the result iterates what the last one built
pub struct ReDBIterBuilder<'a, F, G> { pub guard: &'a ReDatabase, pub table_builder: F, pub iter_builder: G }
impl<'a, F, G> ReDBIterBuilder<'a, F, G> {
    #[verifier::external_body]
    pub fn build<K, V>(self) -> (r: VIter<(K, V)>)
        where F: FnOnce(&ReDatabase) -> ReadOnlyTable<KeyWrap<K>, ValWrap<V>>, G: FnOnce(&ReadOnlyTable<KeyWrap<K>, ValWrap<V>>) -> VIter<(K, V)>
        requires
            self.table_builder.requires((self.guard,)),
            forall|t: ReadOnlyTable<KeyWrap<K>, ValWrap<V>>| #[trigger] self.table_builder.ensures((self.guard,), t) ==> self.iter_builder.requires((&t,)),
        ensures exists|t: ReadOnlyTable<KeyWrap<K>, ValWrap<V>>| #[trigger] self.table_builder.ensures((self.guard,), t) && self.iter_builder.ensures((&t,), r),
    { unimplemented!() }
}
pub assume_specification<T> [core::option::Option::<core::option::Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None });
/// a table opened and not used
pub fn vx_done<T>(t: &mut T) ensures *final(t) == *old(t) {}
pub fn vx_same<T>(t: T) -> (r: T) ensures r == t { t }
pub broadcast axiom fn ax_opened(db: ReDatabase, d: Db, n: Seq<char>) ensures #[trigger] committed(db, d) && #[trigger] opened(db, n) ==> has(d, n);
pub broadcast axiom fn ax_with<K, V>(d: Db, n: Seq<char>, m: Map<K, V>)
    ensures has(d, n) ==> #[trigger] with_table(d, n) == d, tab::<K, V>(#[trigger] put(d, n, m), n) == m, has(put(d, n, m), n);
/// deleting and opening again leaves an empty table
pub broadcast axiom fn ax_without<K, V>(d: Db, n: Seq<char>)
    ensures #[trigger] with_table(without_table(d, n), n) == #[trigger] put::<K, V>(d, n, Map::empty()),;
}
pub use vx_redb::*;
broadcast use {ax_ord, ax_tot, ax_trans, ax_clone, ax_opened, ax_with, ax_without};
// ---- the code
pub open spec fn look<K, V>(m: Map<K, V>, k: K, r: Option<V>) -> bool { r == (if m.contains_key(k) { Some(m[k]) } else { None }) }
//@item file=crates/storage/src/redb/database.rs path="struct ReDbTx"
//@end
impl ReDbTx {
//@fn file=crates/storage/src/redb/database.rs path="impl DbTx for ReDbTx :: fn get" ret=r
//@sub? /eyre::Result/ => EResult
//@desugar opt.map
//@spec
    ensures
        r matches Ok(o) ==> has(self.tx.d@, T::NAME@) && look(tab::<T::Key, T::Value>(self.tx.d@, T::NAME@), *key, o),
        self.tx.ok@ && has(self.tx.d@, T::NAME@) ==> r is Ok,
//@end
//@fn file=crates/types/src/database_traits.rs path="trait DbTx :: fn contains_key" ret=r
//@sub? /eyre::Result/ => EResult
//@spec
    ensures
        r matches Ok(b) ==> has(self.tx.d@, T::NAME@) && b == tab::<T::Key, T::Value>(self.tx.d@, T::NAME@).contains_key(*key),
        self.tx.ok@ && has(self.tx.d@, T::NAME@) ==> r is Ok,
//@end
}
//@item file=crates/storage/src/redb/database.rs path="struct ReDbTxMut"
//@end
impl ReDbTxMut {
    pub open spec fn over(self, o: Self) -> bool { self.tx.db@ == o.tx.db@ && self.tx.base@ == o.tx.base@ && self.tx.safe@ == o.tx.safe@ }
    /// a transaction's own reads see its writes
//@fn file=crates/storage/src/redb/database.rs path="impl DbTx for ReDbTxMut :: fn get" ret=r
//@sub? /eyre::Result/ => EResult
//@desugar opt.map
//@spec
    ensures r matches Ok(o) ==> look(tab::<T::Key, T::Value>(with_table(self.tx.cur@, T::NAME@), T::NAME@), *key, o),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl DbTxMut for ReDbTxMut :: fn insert" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /\.open_table\(/ => .open_table_mut(
//@spec
    ensures
        final(self).over(*old(self)),
        r is Ok ==> final(self).tx.cur@ == inserted::<T>(old(self).tx.cur@, *key, *value),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl DbTxMut for ReDbTxMut :: fn remove" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /\.open_table\(/ => .open_table_mut(
//@spec
    ensures
        final(self).over(*old(self)),
        r is Ok ==> final(self).tx.cur@ == removed::<T>(old(self).tx.cur@, *key),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl DbTxMut for ReDbTxMut :: fn clear_table" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /\.open_table\(/ => .open_table_mut(
//@spec
    ensures
        final(self).over(*old(self)),
        r is Ok ==> final(self).tx.cur@ == cleared::<T>(old(self).tx.cur@),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl DbTxMut for ReDbTxMut :: fn commit" ret=r
//@sub? /eyre::Result/ => EResult
//@spec
    ensures r is Ok && self.tx.safe@ ==> commits(self.tx.db@, self.tx.base@, self.tx.cur@),
//@end
}
pub open spec fn inserted<T: Table>(d: Db, k: T::Key, v: T::Value) -> Db { let e = with_table(d, T::NAME@); put(e, T::NAME@, tab::<T::Key, T::Value>(e, T::NAME@).insert(k, v)) }
pub open spec fn removed<T: Table>(d: Db, k: T::Key) -> Db { let e = with_table(d, T::NAME@); put(e, T::NAME@, tab::<T::Key, T::Value>(e, T::NAME@).remove(k)) }
pub open spec fn cleared<T: Table>(d: Db) -> Db { put::<T::Key, T::Value>(d, T::NAME@, Map::empty()) }
//@item file=crates/storage/src/redb/database.rs path="struct ReDB"
//@end
impl ReDB {
    pub open spec fn d(self) -> ReDatabase { (*self.db).v }
    pub open spec fn ready<T: Table>(self) -> bool { healthy(self.d()) && opened(self.d(), T::NAME@) }
    /// the call committed exactly one state, `f` of what was committed before
    pub open spec fn wrote(self, f: spec_fn(Db) -> Db) -> bool { exists|o: Db, n: Db| committed(self.d(), o) && #[trigger] commits(self.d(), o, n) && n == f(o) }
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn open_table" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /let txn/ => let mut txn
//@sub? /(\w+) \.open_table\((\w+)\)\?;/ => vx_done(\1.open_table_mut(\2)?);
//@after? /begin_write\(\)\?;/
    proof { assert(committed(self.d(), txn.base@)); }
//@spec
    // creates the table when it is missing, changes nothing otherwise
    ensures r is Ok ==> self.wrote(|o: Db| with_table(o, T::NAME@)),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn read_txn" ret=r
//@sub? /eyre::Result<Self::TX<'_>>/ => EResult<ReDbTx>
//@spec
    ensures r matches Ok(t) ==> committed(self.d(), t.tx.d@) && t.tx.ok@ == healthy(self.d()), healthy(self.d()) ==> r is Ok,
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn write_txn" ret=r
//@sub? /eyre::Result<Self::TXMut<'_>>/ => EResult<ReDbTxMut>
//@spec
    ensures r matches Ok(t) ==> t.tx.db@ == self.d() && committed(self.d(), t.tx.base@) && t.tx.cur@ == t.tx.base@ && t.tx.safe@,
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn contains_key" ret=r
//@sub? /eyre::Result/ => EResult
//@spec
    ensures
        r matches Ok(b) ==> exists|s: Db| #[trigger] committed(self.d(), s) && b == tab::<T::Key, T::Value>(s, T::NAME@).contains_key(*key),
        self.ready::<T>() ==> r is Ok,
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn get" ret=r
//@sub? /eyre::Result/ => EResult
//@spec
    ensures
        r matches Ok(v) ==> exists|s: Db| #[trigger] committed(self.d(), s) && look(tab::<T::Key, T::Value>(s, T::NAME@), *key, v),
        self.ready::<T>() ==> r is Ok,
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn insert" ret=r
//@sub? /eyre::Result/ => EResult
//@spec
    ensures r is Ok ==> self.wrote(|o: Db| inserted::<T>(o, *key, *value)),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn remove" ret=r
//@sub? /eyre::Result/ => EResult
//@spec
    ensures r is Ok ==> self.wrote(|o: Db| removed::<T>(o, *key)),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn clear_table" ret=r
//@sub? /eyre::Result/ => EResult
//@spec
    ensures r is Ok ==> self.wrote(|o: Db| cleared::<T>(o)),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn is_empty" ret=r
//@sub? /\.unwrap_or_default\(\)/ => .unwrap_or(false)
//@desugar res.unwrap_or
//@spec
    ensures
        r ==> exists|s: Db| #[trigger] committed(self.d(), s) && tab::<T::Key, T::Value>(s, T::NAME@) == Map::<T::Key, T::Value>::empty(),
        !r && self.ready::<T>() ==> exists|s: Db| #[trigger] committed(self.d(), s) && tab::<T::Key, T::Value>(s, T::NAME@) != Map::<T::Key, T::Value>::empty(),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn iter" ret=r
//@sub? /DBIter<'_, T>/ => VIter<(T::Key, T::Value)>
//@sub? /Box::new\(/ => vx_same(
//@sub? /guard: &mut RwLockReadGuard<'_, ReDatabase>\|/ => guard: &ReDatabase| -> (t: ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>) requires self.ready::<T>() && *guard == self.d(), ensures t.ok@, t.m@.0 == T::NAME@, committed(self.d(), t.m@.1)
//@sub? /table: &ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>\|/ => table: &ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>| -> (it: VIter<(T::Key, T::Value)>) requires table.ok@, ensures rows(table.v(), it@)
//@clos filter.0 &Row<T::Key, T::Value> -> (b: bool)
    ensures b == ($0 is Ok)
//@clos map.0 Row<T::Key, T::Value> -> (o: (T::Key, T::Value))
    requires $0 is Ok, ensures o == ($0->Ok_0.0.v@, $0->Ok_0.1.v@)
//@spec
    requires self.ready::<T>(),
    ensures exists|s: Db| #[trigger] committed(self.d(), s) && rows(tab::<T::Key, T::Value>(s, T::NAME@), r@),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn skip_to" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /DBIter<'_, T>/ => VIter<(T::Key, T::Value)>
//@sub? /Box::new\(/ => vx_same(
//@sub? /guard: &mut RwLockReadGuard<'_, ReDatabase>\|/ => guard: &ReDatabase| -> (t: ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>) requires self.ready::<T>() && *guard == self.d(), ensures t.ok@, t.m@.0 == T::NAME@, committed(self.d(), t.m@.1)
//@sub? /table: &ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>\|/ => table: &ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>| -> (it: VIter<(T::Key, T::Value)>) requires table.ok@, ensures from_key(table.v(), key, it@)
//@clos filter.0 &Row<T::Key, T::Value> -> (b: bool)
    ensures b == ($0 is Ok)
//@clos map.0 Row<T::Key, T::Value> -> (o: (T::Key, T::Value))
    requires $0 is Ok, ensures o == ($0->Ok_0.0.v@, $0->Ok_0.1.v@)
//@clos skip_while.0? &(T::Key, T::Value) -> (b: bool)
    ensures b == klt($0.0, key)
//@spec
    requires self.ready::<T>(),
    ensures r is Ok, exists|s: Db| #[trigger] committed(self.d(), s) && from_key(tab::<T::Key, T::Value>(s, T::NAME@), *key, r->Ok_0@),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn reverse_iter" ret=r
//@sub? /DBIter<'_, T>/ => VIter<(T::Key, T::Value)>
//@sub? /Box::new\(/ => vx_same(
//@sub? /guard: &mut RwLockReadGuard<'_, ReDatabase>\|/ => guard: &ReDatabase| -> (t: ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>) requires self.ready::<T>() && *guard == self.d(), ensures t.ok@, t.m@.0 == T::NAME@, committed(self.d(), t.m@.1)
//@sub? /table: &ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>\|/ => table: &ReadOnlyTable<KeyWrap<T::Key>, ValWrap<T::Value>>| -> (it: VIter<(T::Key, T::Value)>) requires table.ok@, ensures rows_rev(table.v(), it@)
//@clos filter.0 &Row<T::Key, T::Value> -> (b: bool)
    ensures b == ($0 is Ok)
//@clos map.0 Row<T::Key, T::Value> -> (o: (T::Key, T::Value))
    requires $0 is Ok, ensures o == ($0->Ok_0.0.v@, $0->Ok_0.1.v@)
//@spec
    requires self.ready::<T>(),
    ensures exists|s: Db| #[trigger] committed(self.d(), s) && rows_rev(tab::<T::Key, T::Value>(s, T::NAME@), r@),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn record_prior_to" ret=r
//@desugar opt.map
//@forvec 0
//@loop 0 iter=it
    invariant_except_break
        guards(read_table.v(), it.seq()),
        it.index() == 0 ==> last is None,
        it.index() > 0 ==> last == Some((it.seq()[it.index() - 1].0.v@, it.seq()[it.index() - 1].1.v@)) && klt(it.seq()[it.index() - 1].0.v@, *key),
    ensures prior(read_table.v(), *key, last),
//@spec
    requires self.ready::<T>(),
    ensures exists|s: Db| #[trigger] committed(self.d(), s) && prior(tab::<T::Key, T::Value>(s, T::NAME@), *key, r),
//@end
//@fn file=crates/storage/src/redb/database.rs path="impl Database for ReDB :: fn last_record" ret=r
//@desugar opt.map
//@spec
    requires self.ready::<T>(),
    ensures exists|s: Db| #[trigger] committed(self.d(), s) && highest(tab::<T::Key, T::Value>(s, T::NAME@), r),
//@end
//@fn file=crates/types/src/database_traits.rs path="trait Database :: fn multi_get" ret=r
//@sub? /eyre::Result/ => EResult
//@sub? /impl IntoIterator<Item = &'a T::Key>/ => VIter<&'a T::Key>
//@sub? /keys\.into_iter\(\)/ => keys
//@sub? /key\.borrow\(\)/ => key
//@clos map.0 &'a T::Key -> (o: EResult<Option<T::Value>>)
    ensures o matches Ok(v) ==> has(tx.tx.d@, T::NAME@) && look(tab::<T::Key, T::Value>(tx.tx.d@, T::NAME@), *$0, v), tx.tx.ok@ && has(tx.tx.d@, T::NAME@) ==> o is Ok
//@spec
    ensures
        // one snapshot for all of them, answers in the order asked
        r matches Ok(v) ==> v@.len() == keys@.len() && exists|s: Db| #[trigger] committed(self.d(), s) && forall|i: int| 0 <= i < keys@.len() ==> look(tab::<T::Key, T::Value>(s, T::NAME@), *#[trigger] keys@[i], v@[i]),
        self.ready::<T>() ==> r is Ok,
//@end
}
fn main() {}
}
