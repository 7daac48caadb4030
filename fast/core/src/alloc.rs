//! Monitoring allocator: odd placement of byte buffers, poisoning of fresh
//! memory, and an exact emulation of the on-chain bump allocator's arithmetic.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct MonAlloc;

pub const HEAP_START: usize = 0x300000000;
pub const HEAP_LEN: usize = 32 * 1024;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mode {
    /// place align-1 allocations at odd addresses
    pub odd: bool,
    /// fill pattern for fresh memory
    pub fill: u8,
}

impl Mode {
    pub const PLAIN: Mode = Mode { odd: false, fill: 0 };
    pub const HOSTILE: Mode = Mode { odd: true, fill: 0xa7 };
    pub const FLIP: Mode = Mode { odd: false, fill: 0xff };
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static ODD: Cell<bool> = const { Cell::new(false) };
    static FILL: Cell<u8> = const { Cell::new(0) };
    static POS: Cell<usize> = const { Cell::new(HEAP_START + HEAP_LEN) };
    static OVER: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static WORK: Cell<u64> = const { Cell::new(0) };
}

/// Start observing (and perturbing) allocations of this thread.
pub fn begin(mode: Mode) {
    ODD.with(|c| c.set(mode.odd));
    FILL.with(|c| c.set(mode.fill));
    POS.with(|c| c.set(HEAP_START + HEAP_LEN));
    OVER.with(|c| c.set(false));
    COUNT.with(|c| c.set(0));
    WORK.with(|c| c.set(0));
    ACTIVE.with(|c| c.set(true));
}
pub struct HeapUse {
    /// bytes the on-chain bump allocator would have handed out
    pub bytes: u64,
    pub allocs: u64,
    pub exhausted: bool,
    /// basic blocks executed (metered builds)
    pub work: u64,
}
pub fn end() -> HeapUse {
    ACTIVE.with(|c| c.set(false));
    HeapUse {
        bytes: (HEAP_START + HEAP_LEN).wrapping_sub(POS.with(|c| c.get())) as u64,
        allocs: COUNT.with(|c| c.get()),
        exhausted: OVER.with(|c| c.get()),
        work: WORK.with(|c| c.get()),
    }
}
/// Suspend observation while harness code (stubs, CPI) runs.
pub fn pause() -> bool {
    ACTIVE.with(|c| c.replace(false))
}
pub fn resume(was: bool) {
    ACTIVE.with(|c| c.set(was));
}

/// Called by every basic block of what a metered build instruments.
#[cfg(feature = "meter")]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if ACTIVE.with(|c| c.get()) {
        WORK.with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let active = ACTIVE.try_with(|c| c.get()).unwrap_or(false);
        if active {
            COUNT.with(|c| c.set(c.get() + 1));
            POS.with(|p| {
                let pos = p.get().saturating_sub(layout.size()) & !(layout.align() - 1);
                if pos < HEAP_START + 8 {
                    OVER.with(|o| o.set(true));
                }
                p.set(pos);
            });
        }
        let ptr = if layout.align() == 1 {
            let l = Layout::from_size_align_unchecked(layout.size() + 2, 2);
            let base = System.alloc(l);
            if base.is_null() {
                return base;
            }
            if active && ODD.with(|c| c.get()) {
                base.add(1)
            } else {
                base
            }
        } else {
            System.alloc(layout)
        };
        if active && !ptr.is_null() {
            let f = FILL.with(|c| c.get());
            if f != 0 {
                std::ptr::write_bytes(ptr, f, layout.size());
            }
        }
        ptr
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if ACTIVE.try_with(|c| c.get()).unwrap_or(false) && FILL.with(|c| c.get()) != 0 {
            std::ptr::write_bytes(ptr, 0xdd, layout.size());
        }
        if layout.align() == 1 {
            let l = Layout::from_size_align_unchecked(layout.size() + 2, 2);
            let base = if (ptr as usize) & 1 == 1 { ptr.sub(1) } else { ptr };
            System.dealloc(base, l);
        } else {
            System.dealloc(ptr, layout)
        }
    }
}
