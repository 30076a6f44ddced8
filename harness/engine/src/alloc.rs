//! Counts the bytes the broker has allocated and not yet freed: those allocated while anything but the
//! harness' own future runs on the thread of a case. Each block remembers whose it is.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BROKER: Cell<bool> = const { Cell::new(false) };
}
pub struct Counting;

fn offset(l: &Layout) -> usize {
    l.align().max(16)
}
fn whole(l: &Layout) -> Layout {
    // Never overflows for a layout that can be satisfied.
    unsafe { Layout::from_size_align_unchecked(l.size() + offset(l), l.align().max(16)) }
}
unsafe fn tag(base: *mut u8, l: &Layout) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let p = base.add(offset(l));
    let own = BROKER.try_with(|b| b.get()).unwrap_or(false);
    p.sub(1).write(own as u8);
    if own {
        count(l.size() as i64);
    }
    p
}
fn count(by: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + by));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tag(System.alloc(whole(&l)), &l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tag(System.alloc_zeroed(whole(&l)), &l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if p.sub(1).read() == 1 {
            count(-(l.size() as i64));
        }
        System.dealloc(p.sub(offset(&l)), whole(&l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let off = offset(&l);
        let q = System.realloc(p.sub(off), whole(&l), n + off);
        if q.is_null() {
            return q;
        }
        if q.add(off).sub(1).read() == 1 {
            count(n as i64 - l.size() as i64);
        }
        q.add(off)
    }
}
/// Bytes the broker of this thread holds.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
/// From here on, what this thread allocates is the broker's, except inside `Own`.
pub fn broker(on: bool) -> bool {
    BROKER.with(|b| b.replace(on))
}
pub fn is_broker() -> bool {
    BROKER.try_with(|b| b.get()).unwrap_or(false)
}
/// A future of the harness: what it allocates is not the broker's.
pub struct Own<F>(pub Pin<Box<F>>);
impl<F: Future> Future for Own<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        struct Back(bool);
        impl Drop for Back {
            fn drop(&mut self) {
                broker(self.0);
            }
        }
        let _back = Back(broker(false));
        self.0.as_mut().poll(cx)
    }
}
