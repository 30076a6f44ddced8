use crate::sim::{self, Listener};
use std::future::poll_fn;
use std::io;

pub async fn ctrl_c() -> io::Result<()> {
    let mut l = Listener::new(sim::current());
    poll_fn(|cx| l.poll(cx)).await;
    Ok(())
}

pub mod unix {
    use super::*;
    use std::task::{Context, Poll};

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn from_raw(n: i32) -> Self { SignalKind(n) }
        pub const fn interrupt() -> Self { SignalKind(2) }
        pub const fn terminate() -> Self { SignalKind(15) }
        pub const fn hangup() -> Self { SignalKind(1) }
        pub const fn quit() -> Self { SignalKind(3) }
        pub const fn user_defined1() -> Self { SignalKind(10) }
        pub const fn user_defined2() -> Self { SignalKind(12) }
        pub const fn pipe() -> Self { SignalKind(13) }
        pub const fn alarm() -> Self { SignalKind(14) }
        pub const fn child() -> Self { SignalKind(17) }
        pub const fn as_raw_value(&self) -> i32 { self.0 }
    }
    /// Other kinds than the interrupt never arrive.
    pub struct Signal(Option<Listener>);
    impl std::fmt::Debug for Signal {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Signal")
        }
    }
    pub fn signal(kind: SignalKind) -> io::Result<Signal> {
        Ok(Signal((kind == SignalKind::interrupt()).then(|| Listener::new(sim::current()))))
    }
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            poll_fn(|cx| self.poll_recv(cx)).await
        }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
            match &mut self.0 {
                Some(l) => l.poll(cx).map(Some),
                None => Poll::Pending,
            }
        }
    }
}
