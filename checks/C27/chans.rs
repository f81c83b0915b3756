// C27: the channel wrappers over tokio's channels
use vstd::prelude::*;
verus! {
//@include lib/verus/question.rs
//@known Poll Context mpsc broadcast tokio send recv try_send try_recv poll_recv
pub mod tokio { pub mod sync {
    use vstd::prelude::*;
    /// what the channel said to one attempt of this receiver
    #[verifier::accept_recursive_types(T)]
    pub enum Got<T> { Val(T), Lag, Closed, Empty }
    pub uninterp spec fn sent<T>(id: int, v: T) -> bool;
    pub uninterp spec fn full(id: int) -> bool;
    pub uninterp spec fn shut(id: int) -> bool;
    pub mod mpsc {
        use vstd::prelude::*;
        use super::*;
        pub mod error {
            pub enum TryRecvError { Empty, Disconnected }
            pub struct SendError<T>(pub T);
            pub enum TrySendError<T> { Full(T), Closed(T) }
        }
        pub struct Sender<T> { pub ghost id: int, pub p: core::marker::PhantomData<T> }
        pub struct Receiver<T> { pub ghost log: Seq<Got<T>>, pub p: core::marker::PhantomData<T> }
        impl<T> Sender<T> {
            #[verifier::external_body] pub fn send(&self, v: T) -> (r: Result<(), error::SendError<T>>)
                ensures match r { Ok(_) => sent(self.id, v), Err(e) => shut(self.id) && e.0 == v } { unimplemented!() }
            #[verifier::external_body] pub fn try_send(&self, v: T) -> (r: Result<(), error::TrySendError<T>>)
                ensures match r { Ok(_) => sent(self.id, v), Err(error::TrySendError::Full(t)) => full(self.id) && t == v, Err(error::TrySendError::Closed(t)) => shut(self.id) && t == v } { unimplemented!() }
        }
        impl<T> Receiver<T> {
            #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<T>)
                ensures final(self).log == old(self).log.push(match r { Some(v) => Got::Val(v), None => Got::Closed }) { unimplemented!() }
            #[verifier::external_body] pub fn try_recv(&mut self) -> (r: Result<T, error::TryRecvError>)
                ensures final(self).log == old(self).log.push(match r { Ok(v) => Got::Val(v), Err(error::TryRecvError::Empty) => Got::Empty, Err(error::TryRecvError::Disconnected) => Got::Closed }) { unimplemented!() }
            #[verifier::external_body] pub fn poll_recv(&mut self, cx: &mut crate::Context) -> (r: crate::Poll<Option<T>>)
                ensures final(self).log == old(self).log.push(match r { crate::Poll::Ready(Some(v)) => Got::Val(v), crate::Poll::Ready(None) => Got::Closed, crate::Poll::Pending => Got::Empty }) { unimplemented!() }
        }
    }
    pub mod broadcast {
        use vstd::prelude::*;
        use super::*;
        pub mod error {
            pub enum TryRecvError { Empty, Closed, Lagged(u64) }
            pub enum RecvError { Closed, Lagged(u64) }
            pub struct SendError<T>(pub T);
        }
        pub struct Sender<T> { pub ghost id: int, pub p: core::marker::PhantomData<T> }
        pub struct Receiver<T> { pub ghost log: Seq<Got<T>>, pub p: core::marker::PhantomData<T> }
        /// nobody listens
        pub uninterp spec fn deaf(id: int) -> bool;
        impl<T> Sender<T> {
            #[verifier::external_body] pub fn send(&self, v: T) -> (r: Result<usize, error::SendError<T>>)
                ensures match r { Ok(_) => sent(self.id, v), Err(e) => deaf(self.id) && e.0 == v } { unimplemented!() }
        }
        impl<T> Receiver<T> {
            #[verifier::external_body] pub fn recv(&mut self) -> (r: Result<T, error::RecvError>)
                ensures final(self).log == old(self).log.push(match r { Ok(v) => Got::Val(v), Err(error::RecvError::Closed) => Got::Closed, Err(error::RecvError::Lagged(_)) => Got::Lag }) { unimplemented!() }
            #[verifier::external_body] pub fn try_recv(&mut self) -> (r: Result<T, error::TryRecvError>)
                ensures final(self).log == old(self).log.push(match r { Ok(v) => Got::Val(v), Err(error::TryRecvError::Empty) => Got::Empty, Err(error::TryRecvError::Closed) => Got::Closed, Err(error::TryRecvError::Lagged(_)) => Got::Lag }) { unimplemented!() }
        }
    }
} }
pub struct Context { pub w: u64 }
pub enum Poll<T> { Ready(T), Pending }
use tokio::sync::{broadcast, mpsc, Got, sent, full, shut};
broadcast use vx_q::ax_question;
//@item file=crates/types/src/sync.rs path="enum TryRecvError"
//@end
//@item file=crates/types/src/sync.rs path="struct SendError"
//@end
//@item file=crates/types/src/sync.rs path="enum TrySendError"
//@end
pub open spec fn as_m(e: mpsc::error::TryRecvError) -> TryRecvError { match e { mpsc::error::TryRecvError::Empty => TryRecvError::Empty, mpsc::error::TryRecvError::Disconnected => TryRecvError::Disconnected } }
pub open spec fn as_b(e: broadcast::error::TryRecvError) -> TryRecvError { match e { broadcast::error::TryRecvError::Empty => TryRecvError::Empty, broadcast::error::TryRecvError::Closed => TryRecvError::Disconnected, broadcast::error::TryRecvError::Lagged(_) => TryRecvError::Lagged } }
pub open spec fn as_s<T>(e: mpsc::error::TrySendError<T>) -> TrySendError<T> { match e { mpsc::error::TrySendError::Full(t) => TrySendError::Full(t), mpsc::error::TrySendError::Closed(t) => TrySendError::Closed(t) } }
impl vstd::std_specs::convert::FromSpecImpl<mpsc::error::TryRecvError> for TryRecvError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: mpsc::error::TryRecvError) -> TryRecvError { as_m(e) }
}
impl From<mpsc::error::TryRecvError> for TryRecvError {
//@fn file=crates/types/src/sync.rs path="impl From<mpsc::error::TryRecvError> for TryRecvError :: fn from" ret=r trait
//@spec
    ensures r == as_m(value),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<broadcast::error::TryRecvError> for TryRecvError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: broadcast::error::TryRecvError) -> TryRecvError { as_b(e) }
}
impl From<broadcast::error::TryRecvError> for TryRecvError {
//@fn file=crates/types/src/sync.rs path="impl From<broadcast::error::TryRecvError> for TryRecvError :: fn from" ret=r trait
//@spec
    ensures r == as_b(value),
//@end
}
impl<T> vstd::std_specs::convert::FromSpecImpl<mpsc::error::SendError<T>> for SendError<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: mpsc::error::SendError<T>) -> SendError<T> { SendError(e.0) }
}
impl<T> From<mpsc::error::SendError<T>> for SendError<T> {
//@fn file=crates/types/src/sync.rs path="impl From<mpsc::error::SendError<T>> for SendError :: fn from" ret=r trait
//@spec
    ensures r.0 == value.0,
//@end
}
impl<T> vstd::std_specs::convert::FromSpecImpl<broadcast::error::SendError<T>> for SendError<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: broadcast::error::SendError<T>) -> SendError<T> { SendError(e.0) }
}
impl<T> From<broadcast::error::SendError<T>> for SendError<T> {
//@fn file=crates/types/src/sync.rs path="impl From<broadcast::error::SendError<T>> for SendError :: fn from" ret=r trait
//@spec
    ensures r.0 == value.0,
//@end
}
impl<T> vstd::std_specs::convert::FromSpecImpl<mpsc::error::TrySendError<T>> for TrySendError<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: mpsc::error::TrySendError<T>) -> TrySendError<T> { as_s(e) }
}
impl<T> From<mpsc::error::TrySendError<T>> for TrySendError<T> {
//@fn file=crates/types/src/sync.rs path="impl From<mpsc::error::TrySendError<T>> for TrySendError :: fn from" ret=r trait
//@spec
    ensures r == as_s(value),
//@end
}
impl<T> vstd::std_specs::convert::FromSpecImpl<broadcast::error::SendError<T>> for TrySendError<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: broadcast::error::SendError<T>) -> TrySendError<T> { TrySendError::Broadcast(e.0) }
}
impl<T> From<broadcast::error::SendError<T>> for TrySendError<T> {
//@fn file=crates/types/src/sync.rs path="impl From<broadcast::error::SendError<T>> for TrySendError :: fn from" ret=r trait
//@spec
    ensures r == TrySendError::Broadcast(value.0),
//@end
}
impl<T> broadcast::Sender<T> {
// a broadcast send never fails: without listeners the message has no addressee
//@fn file=crates/types/src/sync.rs path="impl TnSender<T> for broadcast::Sender<T> :: fn send" ret=r rename=tn_send async=drop
//@spec
    ensures r is Ok, sent(self.id, value) || broadcast::deaf(self.id),
//@end
//@fn file=crates/types/src/sync.rs path="impl TnSender<T> for broadcast::Sender<T> :: fn try_send" ret=r rename=tn_try_send
//@spec
    ensures r is Ok, sent(self.id, value) || broadcast::deaf(self.id),
//@end
}
impl<T> mpsc::Sender<T> {
// success means queued; a refused value comes back with the reason
//@fn file=crates/types/src/sync.rs path="impl TnSender<T> for mpsc::Sender<T> :: fn send" ret=r rename=tn_send async=drop
//@spec
    ensures match r { Ok(_) => sent(self.id, value), Err(e) => shut(self.id) && e.0 == value },
//@end
//@fn file=crates/types/src/sync.rs path="impl TnSender<T> for mpsc::Sender<T> :: fn try_send" ret=r rename=tn_try_send
//@spec
    ensures match r { Ok(_) => sent(self.id, value), Err(TrySendError::Full(t)) => full(self.id) && t == value, Err(TrySendError::Closed(t)) => shut(self.id) && t == value, Err(TrySendError::Broadcast(_)) => false },
//@end
}
impl<T> broadcast::Receiver<T> {
// a lag is skipped over; None only when the channel is closed; no received value is dropped
//@fn file=crates/types/src/sync.rs path="impl TnReceiver<T> for broadcast::Receiver<T> :: fn recv" ret=r rename=tn_recv async=drop
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@spec
    ensures
        final(self).log.len() > old(self).log.len(), final(self).log.take(old(self).log.len() as int) == old(self).log,
        forall|i: int| old(self).log.len() <= i < final(self).log.len() - 1 ==> #[trigger] final(self).log[i] is Lag,
        final(self).log.last() == (match r { Some(v) => Got::Val(v), None => Got::Closed }),
//@head
    let ghost l0 = self.log;
//@loop 0
    invariant
        l0 == old(self).log, self.log.len() >= l0.len(), self.log.take(l0.len() as int) == l0, forall|i: int| l0.len() <= i < self.log.len() ==> #[trigger] self.log[i] is Lag,
//@loophead 0
    proof { assert(forall|g: Got<T>| #![auto] self.log.push(g).take(l0.len() as int) =~= self.log.take(l0.len() as int)); }
//@end
//@fn file=crates/types/src/sync.rs path="impl TnReceiver<T> for broadcast::Receiver<T> :: fn try_recv" ret=r rename=tn_try_recv
//@spec
    ensures final(self).log == old(self).log.push(match r { Ok(v) => Got::Val(v), Err(TryRecvError::Empty) => Got::Empty, Err(TryRecvError::Disconnected) => Got::Closed, Err(TryRecvError::Lagged) => Got::Lag }),
//@end
}
impl<T> mpsc::Receiver<T> {
//@fn file=crates/types/src/sync.rs path="impl TnReceiver<T> for mpsc::Receiver<T> :: fn recv" ret=r rename=tn_recv async=drop
//@spec
    ensures final(self).log == old(self).log.push(match r { Some(v) => Got::Val(v), None => Got::Closed }),
//@end
//@fn file=crates/types/src/sync.rs path="impl TnReceiver<T> for mpsc::Receiver<T> :: fn try_recv" ret=r rename=tn_try_recv
//@spec
    ensures r != Err::<T, TryRecvError>(TryRecvError::Lagged), final(self).log == old(self).log.push(match r { Ok(v) => Got::Val(v), Err(TryRecvError::Empty) => Got::Empty, Err(TryRecvError::Disconnected) => Got::Closed, Err(TryRecvError::Lagged) => Got::Lag }),
//@end
//@fn file=crates/types/src/sync.rs path="impl TnReceiver<T> for mpsc::Receiver<T> :: fn poll_recv" ret=r rename=tn_poll_recv
//@sub? /Context<'_>/ => Context
//@spec
    ensures final(self).log == old(self).log.push(match r { Poll::Ready(Some(v)) => Got::Val(v), Poll::Ready(None) => Got::Closed, Poll::Pending => Got::Empty }),
//@end
}
}
fn main() {}
