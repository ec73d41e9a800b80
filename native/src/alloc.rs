//! A checking allocator: guards every block, verifies the layout given to dealloc/realloc, poisons
//! fresh and freed memory, and always moves on realloc. Violations are recorded, not fatal.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

pub struct Checking;

pub static ERROR: AtomicU32 = AtomicU32::new(0);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);

pub const NAMES: [&str; 7] = [
    "",
    "an allocation of size zero",
    "a block was freed or resized that is not allocated",
    "a block was freed or resized with the wrong size",
    "a block was freed or resized with the wrong alignment",
    "a write beyond the end of a block",
    "a write before the start of a block",
];
fn error(e: u32) {
    let _ = ERROR.compare_exchange(0, e, SeqCst, SeqCst);
}
const MAGIC: usize = 0x51A2D_A110C;
const DEAD: usize = 0xDEAD_A110C;
const GUARD: u8 = 0xC7;
const TAIL: usize = 32;

#[repr(C)]
struct Head {
    size: usize,
    align: usize,
    guard: usize,
    magic: usize,
}
fn lead(align: usize) -> usize {
    core::mem::size_of::<Head>().max(align)
}
fn outer(l: Layout) -> Layout {
    Layout::from_size_align(l.size() + lead(l.align()) + TAIL, l.align().max(16)).unwrap()
}
const BIG: usize = 1 << 20; // larger blocks are not filled, for speed

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            error(1);
        }
        let base = System.alloc(outer(l));
        if base.is_null() {
            return base;
        }
        let p = base.add(lead(l.align()));
        (p as *mut Head).sub(1).write(Head { size: l.size(), align: l.align(), guard: !MAGIC, magic: MAGIC });
        if l.size() < BIG {
            p.write_bytes(0xA5, l.size());
        }
        p.add(l.size()).write_bytes(GUARD, TAIL);
        LIVE.fetch_add(1, SeqCst);
        LIVE_BYTES.fetch_add(l.size(), SeqCst);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // A misaligned or dangling pointer never had a header; do not touch it.
        if (p as usize) < 4096 || p as usize % 8 != 0 {
            return error(2);
        }
        let h = (p as *mut Head).sub(1);
        if (*h).magic != MAGIC {
            error(if (*h).magic == DEAD { 2 } else { 6 });
            return;
        }
        if (*h).guard != !MAGIC {
            error(6);
        }
        if (*h).size != l.size() {
            error(3);
        }
        if (*h).align != l.align() {
            error(4);
        }
        let real = Layout::from_size_align_unchecked((*h).size, (*h).align);
        for i in 0..TAIL {
            if *p.add(real.size() + i) != GUARD {
                error(5);
                break;
            }
        }
        (*h).magic = DEAD;
        if real.size() < BIG {
            p.write_bytes(0xDD, real.size());
        }
        LIVE.fetch_sub(1, SeqCst);
        LIVE_BYTES.fetch_sub(real.size(), SeqCst);
        System.dealloc(p.sub(lead(real.align())), outer(real));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if n.is_null() {
            return n;
        }
        let mut keep = l.size().min(new);
        if (p as usize) >= 4096 && p as usize % 8 == 0 {
            let h = (p as *mut Head).sub(1);
            if (*h).magic == MAGIC {
                keep = keep.min((*h).size);
            } else {
                keep = 0;
            }
        } else {
            keep = 0;
        }
        core::ptr::copy_nonoverlapping(p, n, keep);
        self.dealloc(p, l);
        n
    }
}
