//! AddressSanitizer interface (feature `asan`): memory the program must not
//! touch, and what was running when it did.
#[cfg(feature = "asan")]
mod on {
    use std::cell::RefCell;
    extern "C" {
        fn __asan_poison_memory_region(p: *const u8, n: usize);
        fn __asan_unpoison_memory_region(p: *const u8, n: usize);
        fn __sanitizer_set_death_callback(f: extern "C" fn());
    }
    thread_local! {
        static LAST: RefCell<Option<(crate::rt::World, crate::rt::Tx)>> = const { RefCell::new(None) };
    }
    static FILE: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

    pub fn poison(b: *mut u8, o: usize, n: usize) {
        unsafe { __asan_poison_memory_region(b.add(o), n) }
    }
    pub fn unpoison(b: *mut u8, o: usize, n: usize) {
        unsafe { __asan_unpoison_memory_region(b.add(o), n) }
    }
    pub fn running(w: &crate::rt::World, tx: &crate::rt::Tx) {
        LAST.with(|l| *l.borrow_mut() = Some((w.clone(), tx.clone())));
    }
    extern "C" fn died() {
        crate::alloc::pause();
        let _ = LAST.try_with(|l| {
            if let (Ok(l), Some(f)) = (l.try_borrow(), FILE.get()) {
                if let Some((w, tx)) = &*l {
                    let v = crate::replay::encode("sanitizer", w, tx);
                    let _ = std::fs::write(f, serde_json::to_vec(&v).unwrap_or_default());
                }
            }
        });
    }
    /// Where to leave the transaction that was running when the sanitizer struck.
    pub fn on_death(f: std::path::PathBuf) {
        let _ = FILE.set(f);
        unsafe { __sanitizer_set_death_callback(died) }
    }
}
#[cfg(feature = "asan")]
pub use on::*;

#[cfg(not(feature = "asan"))]
mod off {
    pub fn poison(_: *mut u8, _: usize, _: usize) {}
    pub fn unpoison(_: *mut u8, _: usize, _: usize) {}
    pub fn running(_: &crate::rt::World, _: &crate::rt::Tx) {}
    pub fn on_death(_: std::path::PathBuf) {}
}
#[cfg(not(feature = "asan"))]
pub use off::*;
