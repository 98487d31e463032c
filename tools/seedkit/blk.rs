pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
            return r;
        }
    }
}
