/// drives a future that is always ready (in-memory readers)
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..10_000_000u64 { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
    panic!("future did not finish")
}
