//! In-memory replacements for the TCP types; the rest of tokio::net is the real thing.
pub use real_tokio::net::{lookup_host, ToSocketAddrs};
pub use real_tokio::io::{Interest, Ready};

use crate::sim::{self, End, Net, Timer};
use real_tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct TcpListener {
    net: NetDbg,
    addr: SocketAddr,
}
struct NetDbg(Net);
impl std::fmt::Debug for NetDbg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("sim")
    }
}

impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let addr = lookup_host(addr).await?.next().ok_or(io::ErrorKind::InvalidInput)?;
        TcpListener::listen_on(addr)
    }
    fn listen_on(addr: SocketAddr) -> io::Result<TcpListener> {
        let net = sim::current();
        {
            let mut n = net.lock().unwrap();
            if n.bound.contains(&addr) {
                return Err(io::ErrorKind::AddrInUse.into());
            }
            n.bound.push(addr);
            n.listening = true;
        }
        Ok(TcpListener { net: NetDbg(net), addr })
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let mut n = self.net.0.lock().unwrap();
        n.accepting();
        match n.backlog.pop_front() {
            Some(Ok(conn)) => {
                n.accepted();
                conn.lock().unwrap().accepted = true;
                n.next_port = n.next_port.wrapping_add(1).max(1024);
                let peer = SocketAddr::from(([127, 0, 0, 1], n.next_port));
                let end = Arc::new(End { conn, peer, local: self.addr });
                Poll::Ready(Ok((TcpStream { end, rt: None, wt: None }, peer)))
            }
            Some(Err(k)) => Poll::Ready(Err(k.into())),
            None => {
                n.accept_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
}
/// A listener that is configured before it is bound.
#[derive(Debug)]
pub struct TcpSocket(std::sync::Mutex<Option<SocketAddr>>);
impl TcpSocket {
    pub fn new_v4() -> io::Result<TcpSocket> { Ok(TcpSocket(Default::default())) }
    pub fn new_v6() -> io::Result<TcpSocket> { Ok(TcpSocket(Default::default())) }
    pub fn set_reuseaddr(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn set_reuseport(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn set_keepalive(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn set_send_buffer_size(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn set_recv_buffer_size(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn bind(&self, addr: SocketAddr) -> io::Result<()> {
        *self.0.lock().unwrap() = Some(addr);
        Ok(())
    }
    pub fn listen(self, _: u32) -> io::Result<TcpListener> {
        let addr = self.0.lock().unwrap().take().ok_or(io::ErrorKind::InvalidInput)?;
        TcpListener::listen_on(addr)
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        self.net.0.lock().unwrap().listening = false;
    }
}

pub struct TcpStream {
    end: Arc<End>,
    rt: Timer,
    wt: Timer,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpStream({})", self.end.peer)
    }
}
impl TcpStream {
    pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(self.end.peer) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(self.end.local) }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn nodelay(&self) -> io::Result<bool> { Ok(true) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> { Ok(None) }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (
            tcp::OwnedReadHalf { end: self.end.clone(), t: None },
            tcp::OwnedWriteHalf { end: self.end, t: None },
        )
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (
            tcp::ReadHalf { end: &self.end, t: None },
            tcp::WriteHalf { end: &self.end, t: None },
        )
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        sim::poll_read(&me.end, &mut me.rt, cx, buf, false)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let me = &mut *self;
        sim::poll_write(&me.end, &mut me.wt, cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        sim::poll_shutdown(&self.end)
    }
}

/// What a stream and its halves can do by reference.
macro_rules! shared {
    ($($read:path),*; $($write:path),*) => {
        $(impl $read {
            pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
                let mut timer = None;
                let mut buf = ReadBuf::new(buf);
                std::future::poll_fn(|cx| sim::poll_read(&self.end, &mut timer, cx, &mut buf, true)).await?;
                Ok(buf.filled().len())
            }
            pub async fn readable(&self) -> io::Result<()> {
                // An error makes a socket readable, too.
                let _ = self.peek_one().await;
                Ok(())
            }
            async fn peek_one(&self) -> io::Result<()> {
                let mut timer = None;
                std::future::poll_fn(|cx| {
                    let mut one = [0];
                    sim::poll_read(&self.end, &mut timer, cx, &mut ReadBuf::new(&mut one), true)
                }).await
            }
            pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                let mut buf = ReadBuf::new(buf);
                match sim::attempt(&self.end, |cx| sim::poll_read(&self.end, &mut None, cx, &mut buf, false)) {
                    Poll::Ready(r) => r.map(|()| buf.filled().len()),
                    Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
                }
            }
        })*
        $(impl $write {
            pub async fn writable(&self) -> io::Result<()> {
                std::future::poll_fn(|cx| sim::poll_writable(&self.end, cx)).await;
                Ok(())
            }
            pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
                match sim::attempt(&self.end, |cx| sim::poll_write(&self.end, &mut None, cx, buf)) {
                    Poll::Ready(r) => r,
                    Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
                }
            }
        })*
    };
}
shared!(TcpStream, tcp::OwnedReadHalf, tcp::ReadHalf<'_>; TcpStream, tcp::OwnedWriteHalf, tcp::WriteHalf<'_>);

pub mod tcp {
    use super::*;
    pub struct OwnedReadHalf { pub(super) end: Arc<End>, pub(super) t: Timer }
    pub struct OwnedWriteHalf { pub(super) end: Arc<End>, pub(super) t: Timer }
    pub struct ReadHalf<'a> { pub(super) end: &'a Arc<End>, pub(super) t: Timer }
    pub struct WriteHalf<'a> { pub(super) end: &'a Arc<End>, pub(super) t: Timer }
    impl OwnedReadHalf {
        pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(self.end.peer) }
        pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(self.end.local) }
    }
    impl OwnedWriteHalf {
        pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(self.end.peer) }
        pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(self.end.local) }
    }
    impl AsyncRead for OwnedReadHalf {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let me = &mut *self;
            sim::poll_read(&me.end, &mut me.t, cx, buf, false)
        }
    }
    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let me = &mut *self;
            sim::poll_read(me.end, &mut me.t, cx, buf, false)
        }
    }
    impl Drop for OwnedWriteHalf {
        // tokio's OwnedWriteHalf shuts the write direction down when dropped.
        fn drop(&mut self) {
            let _ = sim::poll_shutdown(&self.end);
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            let me = &mut *self;
            sim::poll_write(&me.end, &mut me.t, cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { sim::poll_shutdown(&self.end) }
    }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            let me = &mut *self;
            sim::poll_write(me.end, &mut me.t, cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { sim::poll_shutdown(self.end) }
    }
}
