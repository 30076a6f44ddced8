//! The simulated network, and the harness's side of it.
use real_tokio::time::{Duration, Instant};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub type Net = Arc<Mutex<NetState>>;
pub type Conn = Arc<Mutex<ConnState>>;

#[derive(Default)]
pub struct NetState {
    pub bound: Vec<SocketAddr>,
    pub listening: bool,
    pub backlog: VecDeque<Result<Conn, io::ErrorKind>>,
    pub accept_waker: Option<Waker>,
    /// Interrupts raised so far. As with the real signal driver, each one reaches
    /// the listeners that exist at that moment, and nobody else.
    pub interrupts: u64,
    listeners: Vec<(u64, Option<Waker>)>,
    next_listener: u64,
    /// Raise an interrupt around the next accept: at a moment when nobody listens, if there is one.
    gap: Gap,
    pub next_port: u16,
}

#[derive(Default, PartialEq)]
enum Gap {
    #[default]
    Off,
    Armed,
    Accepted,
}

thread_local! {
    static CURRENT: RefCell<Option<Net>> = const { RefCell::new(None) };
}

/// Installs a fresh network for this thread; the broker's next bind uses it.
pub fn install() -> Net {
    let n: Net = Arc::new(Mutex::new(NetState { next_port: 40000, ..Default::default() }));
    CURRENT.with(|c| *c.borrow_mut() = Some(n.clone()));
    n
}
pub fn uninstall() {
    CURRENT.with(|c| *c.borrow_mut() = None);
}
pub fn current() -> Net {
    CURRENT.with(|c| c.borrow().clone()).expect("simulated network not installed on this thread")
}

/// How the peer behaves, as the broker sees it.
#[derive(Clone, Debug, Default)]
pub struct Behaviour {
    /// Cyclic bits: a set bit makes one socket poll return Pending after waking itself.
    pub yields: Vec<bool>,
    /// Cyclic cap on the bytes one write call accepts (empty: no cap).
    pub write_caps: Vec<usize>,
    /// Cyclic delay (ms of virtual time) before each write is accepted (empty: none).
    pub write_delays: Vec<u16>,
}

#[derive(Default)]
pub struct ConnState {
    pub inbound: VecDeque<(Instant, Vec<u8>)>,
    inbound_off: usize,
    pub eof: bool,
    pub reset: bool,
    /// How the broken connection shows: to reads (None: end of stream), to writes.
    broken_read: Option<io::ErrorKind>,
    broken_write: Option<io::ErrorKind>,
    read_waker: Option<Waker>,
    pub outbound: Vec<u8>,
    /// Bytes the peer will still take; None: no limit.
    pub window: Option<usize>,
    /// Set once a write found the window closed: a writer is (or was) blocked.
    pub write_blocked: bool,
    write_waker: Option<Waker>,
    pub behaviour: Behaviour,
    yi: usize,
    yielded: [bool; 2],
    ci: usize,
    di: usize,
    write_ready_at: Option<Instant>,
    /// The broker shut down its writing side, or dropped the socket.
    pub shut: bool,
    pub dropped: bool,
    pub closed_at: Option<Instant>,
    /// The broker took the connection off the accept queue.
    pub accepted: bool,
    pub eof_reads: u64,
    pub error_reads: u64,
    pub reads: u64,
    pub writes: u64,
}

impl ConnState {
    /// The peer sees the connection as ended.
    pub fn closed(&self) -> bool {
        self.shut || self.dropped
    }
    pub fn unread(&self) -> usize {
        self.inbound.iter().map(|s| s.1.len()).sum::<usize>() - self.inbound_off
    }
    fn wake_read(&mut self) {
        if let Some(w) = self.read_waker.take() {
            w.wake();
        }
    }
    fn wake_write(&mut self) {
        if let Some(w) = self.write_waker.take() {
            w.wake();
        }
    }
    /// The peer has broken the connection, and nothing it sent before is still on its way.
    fn broken(&self) -> bool {
        self.reset && self.inbound.back().is_none_or(|(at, _)| *at <= Instant::now())
    }
    pub fn push(&mut self, at: Instant, data: Vec<u8>) {
        if !data.is_empty() {
            self.inbound.push_back((at, data));
            self.wake_read();
        }
    }
    pub fn set_eof(&mut self) {
        self.eof = true;
        self.wake_read();
    }
    pub fn set_reset(&mut self, how: u32) {
        use io::ErrorKind::*;
        self.reset = true;
        let (read, write) = match how % 6 {
            0 => (Some(ConnectionReset), ConnectionReset),
            1 => (Some(TimedOut), TimedOut),
            2 => (Some(ConnectionAborted), ConnectionAborted),
            3 => (Some(HostUnreachable), HostUnreachable),
            // The peer has closed its socket for good.
            4 => (None, BrokenPipe),
            _ => (Some(ConnectionReset), BrokenPipe),
        };
        self.broken_read = read;
        self.broken_write = Some(write);
        self.wake_read();
        self.wake_write();
    }
    pub fn set_window(&mut self, w: Option<usize>) {
        self.window = w;
        self.write_blocked = false;
        self.wake_write();
    }
}

pub fn connect(net: &Net, behaviour: Behaviour) -> Conn {
    let c: Conn = Arc::new(Mutex::new(ConnState { behaviour, ..Default::default() }));
    let mut n = net.lock().unwrap();
    n.backlog.push_back(Ok(c.clone()));
    if let Some(w) = n.accept_waker.take() {
        w.wake();
    }
    c
}
pub fn accept_error(net: &Net, kind: io::ErrorKind) {
    let mut n = net.lock().unwrap();
    n.backlog.push_back(Err(kind));
    if let Some(w) = n.accept_waker.take() {
        w.wake();
    }
}
impl NetState {
    fn raise(&mut self) {
        self.gap = Gap::Off;
        self.interrupts += 1;
        for (_, w) in &mut self.listeners {
            if let Some(w) = w.take() {
                w.wake();
            }
        }
    }
    pub(crate) fn accepting(&mut self) {
        if self.gap == Gap::Accepted {
            self.raise();
        }
    }
    pub(crate) fn accepted(&mut self) {
        if self.gap == Gap::Armed {
            self.gap = Gap::Accepted;
        }
    }
}

pub fn interrupt(net: &Net) {
    net.lock().unwrap().raise();
}
pub fn interrupt_around_accept(net: &Net) {
    net.lock().unwrap().gap = Gap::Armed;
}

/// One registered listener for the interrupt.
pub(crate) struct Listener {
    net: Net,
    key: u64,
    seen: u64,
}
impl Listener {
    pub fn new(net: Net) -> Self {
        let (key, seen) = {
            let mut n = net.lock().unwrap();
            n.next_listener += 1;
            let key = n.next_listener;
            n.listeners.push((key, None));
            (key, n.interrupts)
        };
        Listener { net, key, seen }
    }
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        let mut n = self.net.lock().unwrap();
        if n.interrupts > self.seen {
            self.seen = n.interrupts;
            return Poll::Ready(());
        }
        let key = self.key;
        for (k, w) in &mut n.listeners {
            if *k == key {
                *w = Some(cx.waker().clone());
            }
        }
        Poll::Pending
    }
}
impl Drop for Listener {
    fn drop(&mut self) {
        let mut n = self.net.lock().unwrap();
        let key = self.key;
        n.listeners.retain(|(k, _)| *k != key);
        if n.listeners.is_empty() && n.gap == Gap::Accepted {
            n.raise();
        }
    }
}

/// The broker's end of a connection: shared by every half it is split into.
pub(crate) struct End {
    pub conn: Conn,
    pub peer: SocketAddr,
    pub local: SocketAddr,
}
impl Drop for End {
    fn drop(&mut self) {
        let mut c = self.conn.lock().unwrap();
        c.dropped = true;
        c.closed_at.get_or_insert_with(Instant::now);
    }
}

pub(crate) type Timer = Option<Pin<Box<real_tokio::time::Sleep>>>;

fn arm(t: &mut Timer, at: Instant, cx: &mut Context<'_>) -> bool {
    if Instant::now() >= at {
        *t = None;
        return true;
    }
    let s = t.get_or_insert_with(|| Box::pin(real_tokio::time::sleep_until(at)));
    s.as_mut().reset(at);
    match s.as_mut().poll(cx) {
        Poll::Ready(()) => {
            *t = None;
            true
        }
        Poll::Pending => false,
    }
}

/// Never twice in a row in one direction: `dir` is 0 for reads, 1 for writes.
fn spurious(c: &mut ConnState, dir: usize, cx: &mut Context<'_>) -> bool {
    if c.behaviour.yields.is_empty() {
        return false;
    }
    let y = c.behaviour.yields[c.yi % c.behaviour.yields.len()] && !c.yielded[dir];
    c.yi += 1;
    c.yielded[dir] = y;
    if y {
        cx.waker().wake_by_ref();
    }
    y
}

pub(crate) fn poll_read(
    end: &End,
    timer: &mut Timer,
    cx: &mut Context<'_>,
    buf: &mut real_tokio::io::ReadBuf<'_>,
    peek: bool,
) -> Poll<io::Result<()>> {
    let mut c = end.conn.lock().unwrap();
    // Stand-in for tokio's cooperative budget: a long run of ready reads still yields.
    c.reads += 1;
    if c.reads % 64 == 0 {
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    if spurious(&mut c, 0, cx) {
        return Poll::Pending;
    }
    // What arrived before the connection broke can still be read.
    if let (true, Some(kind)) = (c.broken() && c.inbound.is_empty(), c.broken_read) {
        c.error_reads += 1;
        if c.error_reads > 5000 {
            return Poll::Pending; // a reader that ignores errors: counted, then parked
        }
        return Poll::Ready(Err(kind.into()));
    }
    if buf.remaining() == 0 {
        return Poll::Ready(Ok(()));
    }
    if let Some((at, _)) = c.inbound.front() {
        let at = *at;
        if !arm(timer, at, cx) {
            return Poll::Pending;
        }
        let off = c.inbound_off;
        let (n, done) = {
            let (_, data) = c.inbound.front().unwrap();
            let n = (data.len() - off).min(buf.remaining());
            buf.put_slice(&data[off..off + n]);
            (n, off + n == data.len())
        };
        if !peek {
            if done {
                c.inbound.pop_front();
                c.inbound_off = 0;
            } else {
                c.inbound_off += n;
            }
        }
        return Poll::Ready(Ok(()));
    }
    if c.eof || c.broken() {
        c.eof_reads += 1;
        if c.eof_reads > 5000 {
            return Poll::Pending; // busy loop on a finished stream: counted, then parked
        }
        return Poll::Ready(Ok(()));
    }
    c.read_waker = Some(cx.waker().clone());
    Poll::Pending
}

pub(crate) fn poll_write(
    end: &End,
    timer: &mut Timer,
    cx: &mut Context<'_>,
    data: &[u8],
) -> Poll<io::Result<usize>> {
    let mut c = end.conn.lock().unwrap();
    if spurious(&mut c, 1, cx) {
        return Poll::Pending;
    }
    if c.broken() {
        return Poll::Ready(Err(c.broken_write.unwrap_or(io::ErrorKind::BrokenPipe).into()));
    }
    if c.shut {
        return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
    }
    if data.is_empty() {
        return Poll::Ready(Ok(0));
    }
    if !c.behaviour.write_delays.is_empty() {
        let at = match c.write_ready_at {
            Some(at) => at,
            None => {
                let d = c.behaviour.write_delays[c.di % c.behaviour.write_delays.len()];
                c.di += 1;
                let at = Instant::now() + Duration::from_millis(d as u64);
                c.write_ready_at = Some(at);
                at
            }
        };
        if !arm(timer, at, cx) {
            return Poll::Pending;
        }
    }
    let mut n = data.len();
    if !c.behaviour.write_caps.is_empty() {
        n = n.min(c.behaviour.write_caps[c.ci % c.behaviour.write_caps.len()].max(1));
    }
    if let Some(w) = c.window {
        n = n.min(w);
        if n == 0 {
            c.write_blocked = true;
            c.write_waker = Some(cx.waker().clone());
            // Data still on its way ahead of a reset: look again when it has arrived.
            let until = c.inbound.back().map(|(at, _)| *at);
            if let (true, Some(at)) = (c.reset, until) {
                if arm(timer, at, cx) {
                    return Poll::Ready(Err(c.broken_write.unwrap_or(io::ErrorKind::BrokenPipe).into()));
                }
            }
            return Poll::Pending;
        }
        c.window = Some(w - n);
    }
    c.ci += 1;
    c.writes += 1;
    c.write_ready_at = None;
    c.outbound.extend_from_slice(&data[..n]);
    Poll::Ready(Ok(n))
}

/// Ready when a write would not wait for the window (it may still be told to wait for other reasons).
pub(crate) fn poll_writable(end: &End, cx: &mut Context<'_>) -> Poll<()> {
    let mut c = end.conn.lock().unwrap();
    if c.window == Some(0) && !c.broken() && !c.shut {
        c.write_blocked = true;
        c.write_waker = Some(cx.waker().clone());
        return Poll::Pending;
    }
    Poll::Ready(())
}

/// Poll without leaving a trace among the wakers.
pub(crate) fn attempt<T>(end: &End, f: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
    struct Nobody;
    impl std::task::Wake for Nobody {
        fn wake(self: Arc<Self>) {}
    }
    let wakers = |end: &End| {
        let mut c = end.conn.lock().unwrap();
        (c.read_waker.take(), c.write_waker.take())
    };
    let old = wakers(end);
    let nobody = Waker::from(Arc::new(Nobody));
    let res = f(&mut Context::from_waker(&nobody));
    let mut c = end.conn.lock().unwrap();
    (c.read_waker, c.write_waker) = old;
    res
}

pub(crate) fn poll_shutdown(end: &End) -> Poll<io::Result<()>> {
    let mut c = end.conn.lock().unwrap();
    c.shut = true;
    c.closed_at.get_or_insert_with(Instant::now);
    Poll::Ready(Ok(()))
}

// ------------------------------------------------------------------ schedules

thread_local! {
    /// State of the generator that decides about delays, 0: no delays.
    static SCHEDULE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Chooses how the tasks of the broker are scheduled from here on: 0 for first come, first served.
pub fn schedule(seed: u64) {
    SCHEDULE.with(|s| s.set(seed));
}
fn draw(n: u64) -> u64 {
    SCHEDULE.with(|s| {
        let mut x = s.get();
        if x == 0 {
            return 0;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        (x >> 20) % n
    })
}

/// A task that lets others go first now and then, as one of several threads may.
pub struct Jitter<F> {
    inner: Pin<Box<F>>,
    lazy: u64,
    wait: u64,
}
impl<F> Jitter<F> {
    pub fn new(f: F) -> Self {
        let lazy = [0, 0, 1, 2, 2, 4, 8, 30][draw(8) as usize];
        Jitter { inner: Box::pin(f), lazy, wait: draw(lazy + 1) }
    }
}
impl<F: Future> Future for Jitter<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        if self.wait > 0 {
            self.wait -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let lazy = self.lazy;
        if lazy > 0 && draw(2) == 0 {
            self.wait = draw(lazy + 1);
        }
        self.inner.as_mut().poll(cx)
    }
}
