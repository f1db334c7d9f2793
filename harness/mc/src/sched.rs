//! Stateless exploration of thread interleavings under a controlled scheduler.
//!
//! Real threads run the real code, one at a time.  Control can change hands only at *scheduling points*: calls of [`point`]
//! made by the trait implementations that the check hands to the library (matrix oracles, orders, hashes, coefficient
//! arithmetic, filtration functions) and between the reads of the check itself; and, in programs built with tsan.c, every
//! atomic operation and every access to static memory in the library.  A thread that waits for a lock is not scheduled
//! until it is woken (futex calls are modelled).  Every interleaving with at most `bound` preemptions is run, by depth
//! first search over the choices.
use crate::Res;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

struct St {
    cur: usize,
    done: Vec<bool>,
    /// (choice taken, number of options)
    choices: Vec<(usize, usize)>,
    pos: usize,
    left: usize,
    free: bool,
    points: u64,
    /// the address of the futex that a thread waits for
    waiting: Vec<Option<usize>>,
    /// accesses to shared memory since anything else happened
    spin: u32,
    /// only every so manieth point counts
    stride: u64,
}

struct Core {
    st: Mutex<St>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Core>, usize, u32)>> = const { RefCell::new(None) };
    /// This thread is controlled and not inside of the scheduler.
    static ON: Cell<bool> = const { Cell::new(false) };
}
/// The code under test blocked outside the scheduler (it takes locks): the remaining executions run uncontrolled.
static BLOCKING: AtomicBool = AtomicBool::new(false);
const STALL: Duration = Duration::from_secs(3);

impl St {
    fn choose(&mut self, me: Option<usize>) {
        let mut opt: Vec<usize> = me.into_iter().collect();
        if me.is_none() || self.left > 0 {
            opt.extend((0..self.done.len()).filter(|i| !self.done[*i] && self.waiting[*i].is_none() && Some(*i) != me));
        }
        let pick = match opt.len() {
            0 => {
                if self.done.iter().any(|d| !d) {
                    eprintln!("deadlock: every thread waits for a lock; schedule {:?}", self.choices.iter().map(|c| c.0).collect::<Vec<_>>());
                    std::process::abort();
                }
                return;
            }
            1 => opt[0],
            n => {
                if self.pos == self.choices.len() {
                    self.choices.push((0, n));
                }
                // code that hashes with random keys compares in varying places: stay within the options there are
                let c = self.choices[self.pos].0.min(n - 1);
                self.choices[self.pos] = (c, n);
                self.pos += 1;
                opt[c]
            }
        };
        if me.is_some_and(|m| m != pick) {
            self.left -= 1;
        }
        self.cur = pick;
    }
}

impl St {
    /// The next one that could run, which is no choice.
    fn next(&mut self, me: usize) {
        let n = self.done.len();
        if let Some(i) = (1..n).map(|k| (me + k) % n).find(|i| !self.done[*i] && self.waiting[*i].is_none()) {
            self.cur = i;
        }
    }
    /// Somebody else could run.
    fn runnable(&self, me: usize) -> bool {
        (0..self.done.len()).any(|i| i != me && !self.done[i] && self.waiting[i].is_none())
    }
}

impl Core {
    /// The futex calls of a controlled thread: like the system call, or `-1` to make the system call, or `-1-errno`.
    fn futex(&self, me: usize, addr: *const u32, op: i32, val: u32, timed: bool) -> i32 {
        let a = addr as usize;
        let mut st = self.st.lock().unwrap();
        match op {
            0 | 9 => {
                if st.free {
                    return -1;
                }
                if unsafe { std::ptr::read_volatile(addr) } != val {
                    return -1 - 11;
                }
                st.points += 1;
                if timed {
                    // as if the time were over as soon as nobody else wants to run
                    if st.runnable(me) {
                        st.next(me);
                    }
                } else {
                    st.waiting[me] = Some(a);
                    st.choose(None);
                }
                if st.cur != me {
                    self.cv.notify_all();
                    drop(st);
                    self.wait(me);
                }
                if timed { -1 - 110 } else { 0 }
            }
            1 | 10 => {
                let mut n = 0;
                for w in st.waiting.iter_mut() {
                    if *w == Some(a) && n < val as i32 {
                        *w = None;
                        n += 1;
                    }
                }
                if st.free { -1 } else { n }
            }
            _ => -1,
        }
    }
    fn wait(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        let mut seen = st.points;
        while st.cur != me && !st.free {
            let (s, t) = self.cv.wait_timeout(st, STALL).unwrap();
            st = s;
            if t.timed_out() && st.cur != me && !st.free {
                if st.points == seen {
                    st.free = true;
                    BLOCKING.store(true, Ordering::Relaxed);
                    self.cv.notify_all();
                }
                seen = st.points;
            }
        }
    }
    fn point(&self, me: usize, shared: bool) {
        {
            let mut st = self.st.lock().unwrap();
            if st.free {
                return;
            }
            st.points += 1;
            st.spin = if shared { st.spin + 1 } else { 0 };
            if st.spin > 400 && st.runnable(me) {
                // it may be spinning: let the others run
                st.spin = 0;
                st.next(me);
            } else if st.points % st.stride == 0 {
                st.choose(Some(me));
            }
            if st.cur == me {
                return;
            }
            self.cv.notify_all();
        }
        self.wait(me);
    }
    fn end(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.done[me] = true;
        if !st.free {
            st.choose(None);
        }
        self.cv.notify_all();
    }
}

/// A place where another thread may take over, if the running execution is controlled and listens to `kind`.
pub fn point(kind: u32) {
    if ON.get() {
        ON.set(false);
        let c = ME.with(|m| match &*m.borrow() {
            Some((c, me, mask)) if mask & kind != 0 => Some((c.clone(), *me)),
            _ => None,
        });
        if let Some((c, me)) = c {
            c.point(me, kind == SHARED);
        }
        ON.set(true);
    }
}

/// Called by tsan.c before an atomic operation or an access to static memory.
#[no_mangle]
extern "C" fn mc_shared_access() {
    point(SHARED);
}
/// Called by tsan.c for futex system calls.
#[no_mangle]
extern "C" fn mc_futex(addr: *const u32, op: i32, val: u32, timed: i32) -> i32 {
    if !ON.get() {
        return -1;
    }
    ON.set(false);
    let c = ME.with(|m| m.borrow().as_ref().map(|(c, me, _)| (c.clone(), *me)));
    let r = c.map_or(-1, |(c, me)| c.futex(me, addr, op, val, timed != 0));
    ON.set(true);
    r
}

/// Scheduling points between the steps of the check itself.
pub const STEP: u32 = 1;
/// ... in matrix oracles and bases
pub const ORACLE: u32 = 2;
/// ... in comparisons, hashes and clones of row and column indices
pub const INDEX: u32 = 4;
/// ... in coefficient arithmetic
pub const FIELD: u32 = 8;
/// ... in filtration functions
pub const TIME: u32 = 16;
pub const ALL: u32 = 31 | SHARED;
/// ... at atomic operations and accesses to static memory (always on)
pub const SHARED: u32 = 32;

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}
/// Keeps this thread, and those it starts, on the k-th of the processors it may use: only one of them runs at a time, and
/// control changes hands faster on one processor.  `thorough`: how much exploration may cost.
pub fn pin(k: u64, thorough: bool) {
    DEEP.store(thorough, Ordering::Relaxed);
    let mut m = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, std::mem::size_of_val(&m), m.as_mut_ptr()) <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[k as usize % cpus.len()];
        m = [0; 16];
        m[c / 64] = 1 << (c % 64);
        sched_setaffinity(0, std::mem::size_of_val(&m), m.as_ptr());
    }
}

pub type Body<'a> = Box<dyn FnOnce() -> Res + Send + 'a>;

/// What exploration has cost in this process, in scheduling points, and where it had to be cut.
static SPENT: AtomicU64 = AtomicU64::new(0);
static CUT: AtomicU64 = AtomicU64::new(0);
static DEEP: AtomicBool = AtomicBool::new(false);
/// What one more execution costs
const EXECUTION: f64 = 200.0;

/// In how many explorations the code passed so many scheduling points that the bound was lowered.
pub fn cut() -> u64 {
    CUT.load(Ordering::Relaxed)
}

/// Runs the threads made by `bodies` under every schedule with at most `bound` preemptions at points of the kinds in
/// `mask`.  Returns the numbers of schedules and of scheduling points passed.
///
/// Code that passes far more scheduling points than the tree that the bounds were chosen for (with a lock around every
/// operation, say) is explored with fewer preemptions, or with one at every k-th point: `cut` counts this.
pub fn explore<'a>(bound: usize, mask: u32, bodies: &dyn Fn() -> Vec<Body<'a>>) -> Result<(usize, usize), String> {
    let (mut bound, mut stride) = (bound, 1);
    let mut choices: Vec<(usize, usize)> = vec![];
    let (mut schedules, mut points) = (0, 0);
    loop {
        let free = BLOCKING.load(Ordering::Relaxed);
        let bs = bodies();
        let n = bs.len();
        let mut st = St { cur: 0, done: vec![false; n], choices, pos: 0, left: bound, free, points: 0, waiting: vec![None; n], spin: 0, stride };
        st.choose(None);
        let core = Arc::new(Core { st: Mutex::new(st), cv: Condvar::new() });
        let res: Vec<Res> = std::thread::scope(|s| {
            let hs: Vec<_> = bs
                .into_iter()
                .enumerate()
                .map(|(i, b)| {
                    let core = core.clone();
                    s.spawn(move || {
                        core.wait(i);
                        ME.with(|m| *m.borrow_mut() = Some((core.clone(), i, mask | SHARED)));
                        ON.set(true);
                        let r = catch_unwind(AssertUnwindSafe(b));
                        ON.set(false);
                        ME.with(|m| *m.borrow_mut() = None);
                        core.end(i);
                        r.unwrap_or_else(|e| {
                            let e = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                            Err(format!("panicked: {}", e.unwrap_or_default()))
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        let st = core.st.lock().unwrap();
        choices = st.choices.clone();
        schedules += 1;
        crate::beat();
        SPENT.fetch_add(st.points + EXECUTION as u64, Ordering::Relaxed);
        points += st.points as usize;
        for (i, r) in res.into_iter().enumerate() {
            r.map_err(|m| format!("thread {i} of {n}, schedule {:?}: {m}", choices.iter().map(|c| c.0).collect::<Vec<_>>()))?;
        }
        if st.free {
            return Ok((schedules, points));
        }
        choices.truncate(st.pos);
        if schedules == 1 {
            let d = choices.len() as f64;
            let other = (n - 1) as f64;
            let one = st.points as f64 + EXECUTION;
            let cost = |b: usize| {
                let mut ways = 1.0;
                let mut sum = 1.0;
                for i in 1..=b {
                    ways *= (d - i as f64 + 1.0).max(0.0) / i as f64 * other;
                    sum += ways;
                }
                sum * one * n as f64
            };
            // the bounds of the checks stay well below this
            let spent = SPENT.load(Ordering::Relaxed) as f64;
            let (all, each, late) = if DEEP.load(Ordering::Relaxed) { (2e10, 4e8, 1e6) } else { (1e8, 1e7, 2e4) };
            let cap = if spent < all { each } else { late };
            let was = bound;
            while bound > 1 && cost(bound) > cap {
                bound -= 1;
            }
            if cost(bound) > cap && bound == 1 {
                stride = (cost(1) / cap).ceil() as u64;
            }
            if bound != was || stride > 1 {
                CUT.fetch_add(1, Ordering::Relaxed);
                choices.clear();
                continue;
            }
        }
        // next schedule
        while choices.last().is_some_and(|(c, n)| c + 1 == *n) {
            choices.pop();
        }
        match choices.last_mut() {
            None => return Ok((schedules, points)),
            Some(c) => c.0 += 1,
        }
    }
}
