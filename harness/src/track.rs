//! Allocation tracking for the storage growth property: which memory blocks a
//! call leaves behind, and which existing ones it replaced. The monitor binary
//! installs the allocator that feeds this log.

use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Alloc(usize, usize),
    Free(usize, usize),
    Realloc(usize, usize, usize, usize), // old address, old size, new address, new size
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
}

thread_local! {
    static NET_ON: Cell<bool> = const { Cell::new(false) };
    static NET: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// Starts counting the bytes held by this thread from zero, or stops.
pub fn count_held(on: bool) {
    NET.with(|n| n.set(0));
    PEAK.with(|p| p.set(0));
    NET_ON.with(|o| o.set(on));
}

/// Bytes allocated and not freed by this thread since counting was started.
pub fn held() -> isize {
    NET.with(|n| n.get())
}

/// The most bytes held since counting was started.
pub fn most_held() -> isize {
    PEAK.with(|p| p.get())
}

pub fn note(e: Ev) {
    let _ = NET_ON.try_with(|on| {
        if on.get() {
            let _ = NET.try_with(|n| {
                let now = n.get()
                    + match e {
                        Ev::Alloc(_, s) => s as isize,
                        Ev::Free(_, s) => -(s as isize),
                        Ev::Realloc(_, s, _, t) => t as isize - s as isize,
                    };
                n.set(now);
                let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
            });
        }
    });
    let _ = ON.try_with(|on| {
        if on.get() {
            on.set(false);
            let _ = LOG.try_with(|l| l.borrow_mut().push(e));
            on.set(true);
        }
    });
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Effect {
    /// Blocks of at least the given size that outlive the call, either newly
    /// allocated or resized by it.
    pub kept: usize,
    pub largest: usize,
    /// Blocks that existed before the call and were freed or resized by it.
    pub retired: usize,
}

/// Runs `f`, and reports what it did to blocks of at least `min` bytes that live beyond it.
pub fn observe<T>(min: usize, f: impl FnOnce() -> T) -> (T, Effect) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.reserve(4096);
    });
    let off = Off;
    ON.with(|o| o.set(true));
    let out = f();
    drop(off);
    let mut live: Vec<(usize, usize)> = Vec::new();
    let mut retired = 0;
    LOG.with(|l| {
        for e in l.borrow().iter() {
            match *e {
                Ev::Alloc(a, s) => live.push((a, s)),
                Ev::Free(a, s) => match live.iter().rposition(|x| x.0 == a) {
                    Some(i) => {
                        live.swap_remove(i);
                    }
                    None => retired += (s >= min) as usize,
                },
                Ev::Realloc(a, s, b, t) => {
                    match live.iter().rposition(|x| x.0 == a) {
                        Some(i) => {
                            live.swap_remove(i);
                        }
                        None => retired += (s >= min) as usize,
                    }
                    live.push((b, t));
                }
            }
        }
    });
    let kept: Vec<usize> = live.iter().map(|x| x.1).filter(|s| *s >= min).collect();
    (
        out,
        Effect { kept: kept.len(), largest: kept.iter().copied().max().unwrap_or(0), retired },
    )
}
