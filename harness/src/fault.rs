//! I/O fault plans. The monitor binary interposes the C library's file functions
//! and consults the plan of the calling thread; without an armed plan, and on
//! other threads, calls go straight through.

use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Open,
    Read,
    Write,
    Realpath,
    /// Renaming, cutting, flushing to disk.
    Other,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Plan {
    /// Limit every read/write to this many bytes (0: no limit).
    pub piece: usize,
    /// Vary the limit between 1 and `piece`.
    pub vary: bool,
    /// Interrupt (EINTR) every n-th read/write (0: never).
    pub interrupt_every: u32,
    /// How many times in a row (0 and 1: once).
    pub interrupt_run: u32,
    /// Fail the n-th matching call (counted from 1) with this error (0: never).
    pub fail_open: u32,
    pub fail_read: u32,
    pub fail_write: u32,
    pub fail_realpath: u32,
    pub fail_other: u32,
    /// Only that call fails; later ones work again.
    pub once: bool,
    pub errno: i32,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Seen {
    pub opens: u32,
    pub reads: u32,
    pub writes: u32,
    pub realpaths: u32,
    pub others: u32,
    pub shortened: u32,
    pub interrupted: u32,
    pub failed: u32,
    pub bytes_read: u64,
    pub bytes_written: u64,
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static PLAN: Cell<Plan> = const { Cell::new(Plan { piece: 0, vary: false, interrupt_every: 0, interrupt_run: 0, fail_open: 0, fail_read: 0, fail_write: 0, fail_realpath: 0, fail_other: 0, once: false, errno: 0 }) };
    static SEEN: Cell<Seen> = const { Cell::new(Seen { opens: 0, reads: 0, writes: 0, realpaths: 0, others: 0, shortened: 0, interrupted: 0, failed: 0, bytes_read: 0, bytes_written: 0 }) };
    static LAST_INTR: Cell<u32> = const { Cell::new(0) };
}

/// Runs `f` with the plan armed on this thread.
pub fn with_plan<T>(plan: Plan, f: impl FnOnce() -> T) -> (T, Seen) {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    PLAN.with(|p| p.set(plan));
    SEEN.with(|s| s.set(Seen::default()));
    LAST_INTR.with(|l| l.set(0));
    let d = Disarm;
    ARMED.with(|a| a.set(true));
    let out = f();
    drop(d);
    (out, SEEN.with(|s| s.get()))
}

pub fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}

pub enum Verdict {
    Pass,
    Limit(usize),
    Fail(i32),
}

/// What to do with a call of the library on this thread.
pub fn decide(call: Call, len: usize) -> Verdict {
    let plan = PLAN.with(|p| p.get());
    let mut s = SEEN.with(|s| s.get());
    let (n, at) = match call {
        Call::Open => {
            s.opens += 1;
            (s.opens, plan.fail_open)
        }
        Call::Read => {
            s.reads += 1;
            (s.reads, plan.fail_read)
        }
        Call::Write => {
            s.writes += 1;
            (s.writes, plan.fail_write)
        }
        Call::Realpath => {
            s.realpaths += 1;
            (s.realpaths, plan.fail_realpath)
        }
        Call::Other => {
            s.others += 1;
            (s.others, plan.fail_other)
        }
    };
    let mut v = Verdict::Pass;
    if at != 0 && (n == at || n > at && !plan.once) {
        // A broken device stays broken until the plan is disarmed, a passing fault passes.
        s.failed += 1;
        v = Verdict::Fail(plan.errno);
    } else if matches!(call, Call::Read | Call::Write) {
        let row = LAST_INTR.with(|l| l.get());
        if plan.interrupt_every != 0 && if row == 0 { n % plan.interrupt_every == 0 } else { row < plan.interrupt_run } {
            s.interrupted += 1;
            LAST_INTR.with(|l| l.set(row + 1));
            v = Verdict::Fail(libc::EINTR);
        } else {
            LAST_INTR.with(|l| l.set(0));
            if plan.piece != 0 && len > 0 {
                let limit = if plan.vary { 1 + (n as usize * 7919) % plan.piece } else { plan.piece };
                if limit < len {
                    s.shortened += 1;
                    v = Verdict::Limit(limit);
                }
            }
        }
    }
    SEEN.with(|c| c.set(s));
    v
}

pub fn transferred(call: Call, n: isize) {
    if n > 0 {
        let mut s = SEEN.with(|s| s.get());
        match call {
            Call::Read => s.bytes_read += n as u64,
            Call::Write => s.bytes_written += n as u64,
            _ => {}
        }
        SEEN.with(|c| c.set(s));
    }
}
