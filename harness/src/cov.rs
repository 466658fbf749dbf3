//! Edge counters of the code under test (see scripts/rustc-cov.sh). Without them, as under the
//! sanitizers, there is nothing to see, and the search falls away.

#[cfg(edges)]
mod counters {
    use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

    static START: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
    static LEN: AtomicUsize = AtomicUsize::new(0);

    /// Called by the constructor of the instrumented crate, before main.
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
        let n = stop as usize - start as usize;
        // the linker puts the counters of all modules side by side
        let s = START.load(Ordering::Relaxed);
        if s.is_null() || n > LEN.load(Ordering::Relaxed) {
            START.store(start, Ordering::Relaxed);
            LEN.store(n, Ordering::Relaxed);
        }
    }

    pub fn edges() -> usize {
        LEN.load(Ordering::Relaxed)
    }

    fn at(i: usize) -> *mut u8 {
        debug_assert!(i < edges());
        unsafe { START.load(Ordering::Relaxed).add(i) }
    }

    pub fn clear() {
        for i in 0..edges() {
            unsafe { at(i).write_volatile(0) }
        }
    }

    pub fn get(i: usize) -> u8 {
        unsafe { at(i).read_volatile() }
    }
}

#[cfg(not(edges))]
mod counters {
    pub fn edges() -> usize {
        0
    }
    pub fn clear() {}
    pub fn get(_: usize) -> u8 {
        0
    }
}

pub use counters::{clear, edges, get};

/// How often an edge was taken, in powers of two.
fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

pub struct Seen {
    pub map: Vec<u8>,
}

impl Seen {
    pub fn new() -> Seen {
        Seen { map: vec![0; edges()] }
    }
    /// Takes in what the counters tell; the number of things not seen before.
    pub fn update(&mut self) -> usize {
        let mut new = 0;
        for (i, m) in self.map.iter_mut().enumerate() {
            let b = bucket(get(i));
            if b & !*m != 0 {
                *m |= b;
                new += 1;
            }
        }
        new
    }
}
