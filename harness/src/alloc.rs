//! Accounting allocator: live bytes and blocks, a cap that ends the process (exit 77, an error of the
//! check, never a violation), and - outside AddressSanitizer and Miri - a red zone behind and poison
//! inside every block so that stray writes and stale reads become visible.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::Relaxed};

pub struct Acct;
pub static LIVE_BYTES: AtomicIsize = AtomicIsize::new(0);
pub static LIVE_BLOCKS: AtomicIsize = AtomicIsize::new(0);
pub static BAD: AtomicUsize = AtomicUsize::new(0);
/// Bytes ever allocated; kept in the `cost` build only.
pub static TOTAL_BYTES: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicIsize = AtomicIsize::new(3 << 30);

const CHECKED: bool = cfg!(all(not(miri), not(rw_asan)));
const TAIL: usize = 16;
const HEAD_MAGIC: u64 = 0x5ca1_ab1e_0ddb_a11d;
const FREED_MAGIC: u64 = 0xdead_beef_feed_f00d;

// Layout when CHECKED: [pad .. size u64 | magic u64][payload][tail 16 bytes]
fn head(l: Layout) -> usize {
    l.align().max(16)
}
fn full(l: Layout) -> Layout {
    Layout::from_size_align(head(l) + l.size() + TAIL, l.align().max(16)).unwrap()
}

unsafe fn note_bad() {
    BAD.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Acct {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIVE_BYTES.fetch_add(l.size() as isize, Relaxed) > CAP.load(Relaxed) {
            std::process::exit(77);
        }
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        #[cfg(rw_cost)]
        TOTAL_BYTES.fetch_add(l.size(), Relaxed);
        unsafe {
            if !CHECKED {
                return System.alloc(l);
            }
            let h = head(l);
            let p = System.alloc(full(l));
            if p.is_null() {
                return p;
            }
            let u = p.add(h);
            (u.sub(16) as *mut u64).write_unaligned(l.size() as u64);
            (u.sub(8) as *mut u64).write_unaligned(HEAD_MAGIC);
            std::ptr::write_bytes(u, 0xA5, l.size().min(4096));
            std::ptr::write_bytes(u.add(l.size()), 0x5A, TAIL);
            u
        }
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as isize, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        unsafe {
            if !CHECKED {
                return System.dealloc(u, l);
            }
            let h = head(l);
            let size = (u.sub(16) as *mut u64).read_unaligned();
            let magic = (u.sub(8) as *mut u64).read_unaligned();
            if magic != HEAD_MAGIC || size != l.size() as u64 {
                note_bad();
                if magic == FREED_MAGIC {
                    return; // double free: keep going, the case reports it
                }
                return;
            }
            for i in 0..TAIL {
                if *u.add(l.size() + i) != 0x5A {
                    note_bad();
                    break;
                }
            }
            (u.sub(8) as *mut u64).write_unaligned(FREED_MAGIC);
            std::ptr::write_bytes(u, 0xDB, l.size().min(4096));
            System.dealloc(u.sub(h), full(l));
        }
    }
}

pub fn live() -> (isize, isize) {
    (LIVE_BYTES.load(Relaxed), LIVE_BLOCKS.load(Relaxed))
}
