//! The allocator of the simulator: notices memory released twice, or released as something other
//! than what it was allocated as, and overwrites what is released. It watches the buffers that
//! change hands in the two foreign interfaces.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Checked;
#[global_allocator]
static A: Checked = Checked;

static BAD: AtomicU64 = AtomicU64::new(0);
static HAD: AtomicU64 = AtomicU64::new(0);
static GOT: AtomicU64 = AtomicU64::new(0);
const LIVE: u64 = 0x6c69_7665_6c69_7665;
const FREED: u64 = 0x6672_6565_6672_6565;

fn head(l: Layout) -> usize {
    l.align().max(32)
}
fn whole(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + head(l), l.align().max(16)) }
}
unsafe fn mark(p: *mut u8, l: Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let p = p.add(head(l));
    (p.sub(32) as *mut u64).write(l.size() as u64);
    (p.sub(24) as *mut u64).write(l.align() as u64);
    (p.sub(16) as *mut u64).write(LIVE);
    p
}
fn bad(kind: u64, had: u64, got: u64) {
    if BAD.compare_exchange(0, kind, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
        HAD.store(had, Ordering::SeqCst);
        GOT.store(got, Ordering::SeqCst);
    }
}
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mark(System.alloc(whole(l)), l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        mark(System.alloc_zeroed(whole(l)), l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (size, align, magic) = ((p.sub(32) as *mut u64).read(), (p.sub(24) as *mut u64).read(), (p.sub(16) as *mut u64).read());
        if magic != LIVE {
            // nothing sensible can be done with it
            return bad(if magic == FREED { 1 } else { 2 }, 0, l.size() as u64);
        }
        if size != l.size() as u64 || align != l.align() as u64 {
            bad(3, size, l.size() as u64);
        }
        let l = Layout::from_size_align_unchecked(size as usize, align as usize);
        (p.sub(16) as *mut u64).write(FREED);
        p.write_bytes(0xDB, l.size().min(256));
        System.dealloc(p.sub(head(l)), whole(l))
    }
}

/// The first misuse since the last call.
pub fn misuse() -> Option<String> {
    let (had, got) = (HAD.load(Ordering::SeqCst), GOT.load(Ordering::SeqCst));
    match BAD.swap(0, Ordering::SeqCst) {
        0 => None,
        1 => Some(format!("memory was released twice ({got} bytes)")),
        2 => Some(format!("memory was released that was never allocated ({got} bytes)")),
        _ => Some(format!("memory allocated as {had} bytes was released as {got} bytes")),
    }
}
