//! stand-in for the allocator of the generated library: every block has a guard behind it, and must be given back with the size it was asked with
use std::alloc::{GlobalAlloc, Layout, System};
pub struct WeeAlloc;
impl WeeAlloc { pub const INIT: WeeAlloc = WeeAlloc; }
pub static BAD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static HELD: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
fn whole(l: Layout) -> Layout { Layout::from_size_align(l.size() + 80, 16).unwrap() }
unsafe impl GlobalAlloc for WeeAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 { return System.alloc(l); }
        let p = System.alloc(whole(l));
        if p.is_null() { return p }
        (p as *mut usize).write(l.size());
        HELD.fetch_add(l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        std::ptr::write_bytes(p.add(16), 0xC5, l.size() + 64);
        p.add(16)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if l.align() > 16 { return System.dealloc(q, l); }
        let p = q.sub(16);
        let n = (p as *const usize).read();
        if n != l.size() { BAD.fetch_or(1, std::sync::atomic::Ordering::Relaxed); }
        for i in 0..64 { if *q.add(n + i) != 0xC5 { BAD.fetch_or(2, std::sync::atomic::Ordering::Relaxed); } }
        HELD.fetch_sub(n as isize, std::sync::atomic::Ordering::Relaxed);
        System.dealloc(p, Layout::from_size_align(n + 80, 16).unwrap());
    }
}
