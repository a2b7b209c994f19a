//! Several threads on one tree: free running, or one at a time with a switch at every file-system
//! access.  The accesses are seen by standing in for the C library's `statx` and `open64`, so the crate
//! itself is not changed.
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
}
const SYS_OPENAT: c_long = 257;
const SYS_STATX: c_long = 332;
const AT_FDCWD: c_int = -100;

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    point();
    syscall(SYS_OPENAT, AT_FDCWD, path, flags, mode) as c_int
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    // what std asks of a file it has open is no access of its own
    if !path.is_null() && *path != 0 {
        point();
    }
    syscall(SYS_STATX, fd, path, flags, mask, buf) as c_int
}

thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
}

struct Turn {
    sched: Vec<u8>,
    pos: usize,
    rng: u64,
    current: usize,
    alive: Vec<bool>,
    waiting: Vec<bool>,
    /// whether every turn so far was as scheduled
    kept: bool,
}

static ON: AtomicBool = AtomicBool::new(false);
static TURN: Mutex<Option<Turn>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
/// A thread that holds a lock another one needs would never be reached: the others go on after a while.
const STUCK: Duration = Duration::from_millis(40);

impl Turn {
    /// Whose turn is next: as scheduled if that thread is there, else the one that runs, else any.
    fn next(&mut self) {
        let n = self.alive.len();
        let want = if self.pos < self.sched.len() {
            self.sched[self.pos] as usize
        } else if self.rng == 0 {
            self.current
        } else {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            // mostly stay, so that long and short runs both occur
            if self.rng % 3 == 0 { (self.rng >> 8) as usize % n } else { self.current }
        };
        if self.pos < self.sched.len() && !self.alive[want % n] {
            self.kept = false;
        }
        self.pos += 1;
        self.current = (0..n).map(|k| (want + k) % n).find(|&k| self.alive[k]).unwrap_or(0);
    }
}

/// A scheduled thread may be made to wait here.
fn point() {
    if !ON.load(Ordering::Relaxed) {
        return;
    }
    let me = TID.with(|t| t.get());
    if me == 0 {
        return;
    }
    switch(me - 1);
}

fn switch(me: usize) {
    let mut g = TURN.lock().unwrap();
    if let Some(t) = g.as_mut() {
        t.waiting[me] = true;
        if t.current == me {
            t.next();
            CV.notify_all();
        }
    }
    wait(g, me);
}

fn wait(mut g: std::sync::MutexGuard<Option<Turn>>, me: usize) {
    loop {
        match g.as_mut() {
            None => return,
            Some(t) if t.current == me => {
                t.waiting[me] = false;
                return;
            }
            _ => {}
        }
        let (g2, timeout) = CV.wait_timeout(g, STUCK).unwrap();
        g = g2;
        if timeout.timed_out() {
            if let Some(t) = g.as_mut() {
                if t.current != me && !t.waiting[t.current] {
                    t.current = me;
                    t.kept = false;
                    CV.notify_all();
                }
            }
        }
    }
}

pub fn start(n: usize, sched: Vec<u8>, rng: u64) {
    let first = sched.first().map_or(0, |&k| k as usize % n);
    *TURN.lock().unwrap() = Some(Turn { sched, pos: 1, rng, current: first, alive: vec![true; n], waiting: vec![false; n], kept: true });
    ON.store(true, Ordering::SeqCst);
}

/// Whether the schedule was followed to its end and no further.
pub fn stop() -> bool {
    ON.store(false, Ordering::SeqCst);
    let t = TURN.lock().unwrap().take();
    CV.notify_all();
    t.map_or(false, |t| t.kept && t.pos == t.sched.len() + 1)
}

pub fn enter(me: usize) {
    TID.with(|t| t.set(me + 1));
    wait(TURN.lock().unwrap(), me);
}

/// A switch that is not a file-system access: between the edits of the writer.
pub fn pause(me: usize) {
    if ON.load(Ordering::Relaxed) {
        switch(me);
    }
}

/// The file-system accesses of `f` are no switches.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let old = TID.with(|t| t.replace(0));
    let r = f();
    TID.with(|t| t.set(old));
    r
}

pub fn leave(me: usize) {
    TID.with(|t| t.set(0));
    let mut g = TURN.lock().unwrap();
    if let Some(t) = g.as_mut() {
        t.alive[me] = false;
        t.waiting[me] = false;
        if t.current == me {
            t.next();
        }
    }
    CV.notify_all();
}
