//! Watches the system calls that single calls of the library make, by the kernel's
//! syscall user dispatch: while a thread's switch is on, each of its system calls is
//! delivered to a handler, which notes it, and then makes it.

use std::cell::{Cell, UnsafeCell};
use std::sync::OnceLock;

pub const PATHS: usize = 240;

#[derive(Clone, Copy)]
pub struct Note {
    pub call: i64,
    pub args: [u64; 6],
    /// The path given, if any, with its length.
    path: [u8; PATHS],
    len: usize,
    pub result: i64,
}

impl Note {
    pub fn path(&self) -> &[u8] {
        &self.path[..self.len]
    }
}

const MOST: usize = 256;

struct Log {
    notes: [Note; MOST],
}

thread_local! {
    static SWITCH: Cell<u8> = const { Cell::new(0) };
    static READY: Cell<bool> = const { Cell::new(false) };
    static WANTED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static LOG: UnsafeCell<Log> = const { UnsafeCell::new(Log { notes: [Note { call: 0, args: [0; 6], path: [0; PATHS], len: 0, result: 0 }; MOST] }) };
}

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod inner {
    use super::*;

    std::arch::global_asm!(
        ".pushsection .text.still_calls,\"ax\",@progbits",
        ".globl still_begin",
        "still_begin:",
        "nop",
        ".globl still_call",
        "still_call:",
        "mov rax, rdi",
        "mov r9, [rsi + 40]",
        "mov r8, [rsi + 32]",
        "mov r10, [rsi + 24]",
        "mov rdx, [rsi + 16]",
        "mov rdi, [rsi]",
        "mov rsi, [rsi + 8]",
        "syscall",
        "ret",
        ".globl still_restore",
        "still_restore:",
        "mov eax, 15",
        "syscall",
        "nop",
        ".globl still_end",
        "still_end:",
        "nop",
        ".popsection",
    );

    extern "C" {
        fn still_begin();
        fn still_call(call: i64, args: *const u64) -> i64;
        fn still_restore();
        fn still_end();
    }

    #[repr(C)]
    struct Action {
        handler: usize,
        flags: u64,
        restorer: usize,
        mask: u64,
    }

    /// What has only to do with the process's own memory, threads of control and time.
    fn inward(call: i64, args: &[u64; 6]) -> bool {
        match call {
            libc::SYS_mmap => args[3] & libc::MAP_ANONYMOUS as u64 != 0,
            libc::SYS_munmap
            | libc::SYS_mremap
            | libc::SYS_mprotect
            | libc::SYS_madvise
            | libc::SYS_brk
            | libc::SYS_futex
            | libc::SYS_getrandom
            | libc::SYS_clock_gettime
            | libc::SYS_clock_getres
            | libc::SYS_gettimeofday
            | libc::SYS_time
            | libc::SYS_sched_yield
            | libc::SYS_sched_getaffinity
            | libc::SYS_getcpu
            | libc::SYS_getpid
            | libc::SYS_gettid
            | libc::SYS_rt_sigprocmask
            | libc::SYS_sigaltstack
            | libc::SYS_rseq
            | libc::SYS_set_robust_list
            | libc::SYS_membarrier
            | libc::SYS_prlimit64
            | libc::SYS_getrlimit
            | libc::SYS_exit_group => true,
            _ => false,
        }
    }

    /// Which argument is a path.
    fn path_at(call: i64) -> &'static [usize] {
        match call {
            libc::SYS_open
            | libc::SYS_creat
            | libc::SYS_stat
            | libc::SYS_lstat
            | libc::SYS_access
            | libc::SYS_readlink
            | libc::SYS_unlink
            | libc::SYS_rmdir
            | libc::SYS_mkdir
            | libc::SYS_chmod
            | libc::SYS_chown
            | libc::SYS_lchown
            | libc::SYS_truncate
            | libc::SYS_statfs
            | libc::SYS_chdir
            | libc::SYS_utime
            | libc::SYS_utimes
            | libc::SYS_getxattr
            | libc::SYS_lgetxattr
            | libc::SYS_listxattr
            | libc::SYS_setxattr
            | libc::SYS_execve
            | libc::SYS_mknod => &[0],
            libc::SYS_rename | libc::SYS_link | libc::SYS_symlink => &[1, 0],
            libc::SYS_openat
            | libc::SYS_openat2
            | libc::SYS_newfstatat
            | libc::SYS_statx
            | libc::SYS_faccessat
            | libc::SYS_faccessat2
            | libc::SYS_readlinkat
            | libc::SYS_unlinkat
            | libc::SYS_mkdirat
            | libc::SYS_fchmodat
            | libc::SYS_fchownat
            | libc::SYS_utimensat
            | libc::SYS_inotify_add_watch
            | libc::SYS_name_to_handle_at => &[1],
            libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_linkat => &[3, 1],
            _ => &[],
        }
    }

    /// What the C library's allocator looks at before it gives memory back, once per process.
    unsafe fn of_allocator(path: *const u8) -> bool {
        const LOOKED_AT: [&[u8]; 3] = [b"/proc/sys/vm/overcommit_memory\0", b"/sys/kernel/mm/transparent_hugepage/enabled\0", b"/sys/devices/system/cpu/online\0"];
        !path.is_null() && LOOKED_AT.iter().any(|p| (0..p.len()).all(|i| *path.add(i) == p[i]))
    }

    thread_local! {
        /// The descriptor by which it does so.
        static ALLOCATOR: Cell<i64> = const { Cell::new(-1) };
    }

    unsafe extern "C" fn handler(_: i32, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
        SWITCH.with(|s| s.set(0));
        let regs = &mut (*(context as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let call = regs[libc::REG_RAX as usize];
        let args = [
            regs[libc::REG_RDI as usize] as u64,
            regs[libc::REG_RSI as usize] as u64,
            regs[libc::REG_RDX as usize] as u64,
            regs[libc::REG_R10 as usize] as u64,
            regs[libc::REG_R8 as usize] as u64,
            regs[libc::REG_R9 as usize] as u64,
        ];
        let allocator = match call {
            libc::SYS_openat => of_allocator(args[1] as *const u8),
            libc::SYS_read | libc::SYS_close => args[0] as i64 == ALLOCATOR.with(|a| a.get()),
            _ => false,
        };
        let noted = !inward(call, &args) && !allocator;
        let n = COUNT.with(|c| c.get());
        if noted {
            if n < MOST {
                LOG.with(|l| {
                    let note = &mut (*l.get()).notes[n];
                    note.call = call;
                    note.args = args;
                    note.len = 0;
                    note.result = 0;
                    if let Some(i) = path_at(call).first() {
                        let p = args[*i] as *const u8;
                        if !p.is_null() {
                            while note.len < PATHS && *p.add(note.len) != 0 {
                                note.path[note.len] = *p.add(note.len);
                                note.len += 1;
                            }
                        }
                    }
                });
            }
            COUNT.with(|c| c.set(n + 1));
        }
        let r = match call {
            // Nothing is started.
            libc::SYS_clone | libc::SYS_clone3 | libc::SYS_fork | libc::SYS_vfork | libc::SYS_execve | libc::SYS_execveat => -(libc::EAGAIN as i64),
            _ => still_call(call, args.as_ptr()),
        };
        if noted && n < MOST {
            LOG.with(|l| (*l.get()).notes[n].result = r);
        }
        if allocator && call != libc::SYS_read {
            ALLOCATOR.with(|a| a.set(if call == libc::SYS_openat { r.max(-1) } else { -1 }));
        }
        regs[libc::REG_RAX as usize] = r;
        SWITCH.with(|s| s.set(1));
    }

    fn handled() -> bool {
        static DONE: OnceLock<bool> = OnceLock::new();
        *DONE.get_or_init(|| unsafe {
            let a = Action {
                handler: handler as *const () as usize,
                flags: (libc::SA_SIGINFO | libc::SA_NODEFER) as u64 | 0x0400_0000,
                restorer: still_restore as *const () as usize,
                mask: 0,
            };
            libc::syscall(libc::SYS_rt_sigaction, libc::SIGSYS, &a as *const Action, std::ptr::null::<Action>(), 8usize) == 0
        })
    }

    pub fn ready() -> bool {
        if READY.with(|r| r.get()) {
            return true;
        }
        if !handled() {
            return false;
        }
        SWITCH.with(|s| s.set(0));
        let switch = SWITCH.with(|s| s.as_ptr());
        let begin = still_begin as *const () as usize;
        let end = still_end as *const () as usize;
        let ok = unsafe { libc::prctl(59, 1usize, begin, end - begin, switch) } == 0;
        READY.with(|r| r.set(ok));
        ok
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
mod inner {
    pub fn ready() -> bool {
        false
    }
}

/// Whether calls of this thread can be watched.
pub fn ready() -> bool {
    inner::ready()
}

/// Watches what happens within `guard` on this thread from now on, or no longer.
pub fn want(on: bool) {
    WANTED.with(|w| w.set(on && ready()));
}

pub fn wanted() -> bool {
    WANTED.with(|w| w.get())
}

pub struct Watch {
    before: u8,
}

impl Watch {
    /// Whether it's no part of another call being watched.
    pub fn outermost(&self) -> bool {
        self.before == 0
    }
}

/// Watches the thread until this is dropped.
pub fn watch() -> Watch {
    let before = SWITCH.with(|s| s.get());
    if before == 0 {
        COUNT.with(|c| c.set(0));
    }
    SWITCH.with(|s| s.set(1));
    Watch { before }
}

impl Drop for Watch {
    fn drop(&mut self) {
        SWITCH.with(|s| s.set(self.before));
    }
}

/// Stops watching for a while: what the harness itself does within a call.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let before = SWITCH.with(|s| s.replace(0));
    let r = f();
    SWITCH.with(|s| s.set(before));
    r
}

/// The calls noted since watching started; how many there were, and the first of them.
pub fn noted() -> (usize, Vec<Note>) {
    let n = COUNT.with(|c| c.get());
    (n, LOG.with(|l| unsafe { (&(*l.get()).notes)[..n.min(MOST)].to_vec() }))
}

thread_local! {
    static WATCHED: Cell<u64> = const { Cell::new(0) };
    static VIOLATION: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// How many calls were judged on this thread.
pub fn watched_so_far() -> u64 {
    WATCHED.with(|w| w.get())
}

pub fn take_violation() -> Option<String> {
    VIOLATION.with(|v| v.borrow_mut().take())
}

/// What the calls noted say of a call that is no operation on files.
pub fn judge_noted(what: &str) -> Result<(), String> {
    let (n, notes) = noted();
    if n == 0 {
        return Ok(());
    }
    Err(format!(
        "{} is no operation on files, but made {} system calls that reach beyond the process: {}",
        what,
        n,
        notes.iter().take(6).map(show).collect::<Vec<_>>().join(", ")
    ))
}

/// Judges a call that is no operation on files.
pub fn judge(what: &str) {
    WATCHED.with(|w| w.set(w.get() + 1));
    if let Err(m) = judge_noted(what) {
        VIOLATION.with(|v| {
            v.borrow_mut().get_or_insert(m);
        });
    }
}

/// Whether something was to be started, which is refused, and may end in a panic.
pub fn started() -> bool {
    noted().1.iter().any(|n| matches!(n.call, libc::SYS_clone | libc::SYS_clone3 | libc::SYS_fork | libc::SYS_vfork | libc::SYS_execve | libc::SYS_execveat))
}

pub fn count() -> usize {
    COUNT.with(|c| c.get())
}

pub fn name(call: i64) -> String {
    let known: &[(i64, &str)] = &[
        (libc::SYS_read, "read"),
        (libc::SYS_write, "write"),
        (libc::SYS_writev, "writev"),
        (libc::SYS_openat, "openat"),
        (libc::SYS_open, "open"),
        (libc::SYS_close, "close"),
        (libc::SYS_stat, "stat"),
        (libc::SYS_lstat, "lstat"),
        (libc::SYS_newfstatat, "newfstatat"),
        (libc::SYS_statx, "statx"),
        (libc::SYS_readlink, "readlink"),
        (libc::SYS_readlinkat, "readlinkat"),
        (libc::SYS_getcwd, "getcwd"),
        (libc::SYS_access, "access"),
        (libc::SYS_getdents64, "getdents64"),
        (libc::SYS_unlink, "unlink"),
        (libc::SYS_rename, "rename"),
        (libc::SYS_mkdir, "mkdir"),
        (libc::SYS_nanosleep, "nanosleep"),
        (libc::SYS_clock_nanosleep, "clock_nanosleep"),
        (libc::SYS_clone3, "clone3"),
        (libc::SYS_clone, "clone"),
        (libc::SYS_socket, "socket"),
        (libc::SYS_connect, "connect"),
        (libc::SYS_fsync, "fsync"),
        (libc::SYS_chdir, "chdir"),
        (libc::SYS_umask, "umask"),
        (libc::SYS_mmap, "mmap of a file"),
        (libc::SYS_lseek, "lseek"),
        (libc::SYS_poll, "poll"),
    ];
    known.iter().find(|k| k.0 == call).map_or_else(|| format!("system call {}", call), |k| k.1.to_string())
}

pub fn show(n: &Note) -> String {
    let p = n.path();
    if p.is_empty() {
        format!("{}({}, ..)", name(n.call), n.args[0] as i64)
    } else {
        format!("{}({:?})", name(n.call), String::from_utf8_lossy(p))
    }
}
