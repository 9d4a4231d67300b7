//! A global allocator that counts, per thread, the live bytes and their peak. Oracle of C29 and C30.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static PEAK: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;
#[inline]
fn add(n: i64) {
	let _ = LIVE.try_with(|l| {
		let v = l.get() + n;
		l.set(v);
		if n > 0 {
			let _ = PEAK.try_with(|p| {
				if v > p.get() {
					p.set(v)
				}
			});
		}
	});
}
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let p = System.alloc(l);
		if !p.is_null() {
			add(l.size() as i64);
		}
		p
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		let p = System.alloc_zeroed(l);
		if !p.is_null() {
			add(l.size() as i64);
		}
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		add(-(l.size() as i64));
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		let q = System.realloc(p, l, n);
		if !q.is_null() {
			add(n as i64 - l.size() as i64);
		}
		q
	}
}
/// bytes that are left when `f` has returned, and the peak while it ran
pub fn measure(f: impl FnOnce()) -> (i64, i64) {
	let a = LIVE.with(|l| l.get());
	PEAK.with(|p| p.set(a));
	f();
	(LIVE.with(|l| l.get()) - a, PEAK.with(|p| p.get()) - a)
}
