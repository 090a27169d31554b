//! A controlled scheduler for threads that use the implementation.
//!
//! One thread runs at a time, for as long as it is granted: to its end, up to
//! its next call of user code, or for a number of steps. A step is a basic
//! block of the implementation: the build for C19 compiles `upon` with the
//! compiler's coverage callbacks (tools/rustc_steps.sh), which end up in
//! [`__sanitizer_cov_trace_pc_guard`].

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy)]
pub struct Grant {
    /// Steps until it has to yield; `u64::MAX` is never.
    pub steps: u64,
    /// Whether it yields at calls of user code.
    pub calls: bool,
}
pub const FINISH: Grant = Grant { steps: u64::MAX, calls: false };
pub const CALL: Grant = Grant { steps: u64::MAX, calls: true };
pub fn steps(n: usize) -> Grant {
    Grant { steps: n as u64, calls: false }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Waiting,
    Running,
    Done,
}

struct St {
    grant: Vec<Option<Grant>>,
    status: Vec<Status>,
}
struct Shared {
    m: Mutex<St>,
    back: Condvar,
    go: Vec<Condvar>,
}

struct Me {
    shared: Cell<*const Shared>,
    id: Cell<usize>,
    left: Cell<u64>,
    calls: Cell<bool>,
    count: Cell<u64>,
}
thread_local! {
    static ME: Me = const { Me {
        shared: Cell::new(std::ptr::null()),
        id: Cell::new(0),
        left: Cell::new(u64::MAX),
        calls: Cell::new(false),
        count: Cell::new(0),
    } };
    static POINT: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    crate::cost::block();
    let _ = ME.try_with(|me| {
        me.count.set(me.count.get() + 1);
        let n = me.left.get();
        if n != u64::MAX {
            if n <= 1 {
                give_back(me);
            } else {
                me.left.set(n - 1);
            }
        }
    });
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

/// The steps something takes on this thread.
pub fn count(f: impl FnOnce()) -> usize {
    let a = ME.with(|me| me.count.get());
    f();
    (ME.with(|me| me.count.get()) - a) as usize
}

/// Something to do at the calls of user code on this thread, not within
/// itself.
pub fn set_point(f: Option<Box<dyn FnMut()>>) -> Option<Box<dyn FnMut()>> {
    POINT.with(|p| p.replace(f))
}

/// User code has been called.
pub fn point() {
    ME.with(|me| {
        if me.calls.get() {
            give_back(me);
        }
    });
    if let Some(mut f) = set_point(None) {
        f();
        set_point(Some(f));
    }
}

fn take(me: &Me, s: &Shared, st: &mut std::sync::MutexGuard<'_, St>) -> bool {
    let id = me.id.get();
    match st.grant[id].take() {
        Some(g) => {
            me.left.set(g.steps);
            me.calls.set(g.calls);
            st.status[id] = Status::Running;
            let _ = s;
            true
        }
        None => false,
    }
}

fn give_back(me: &Me) {
    let s = me.shared.get();
    if s.is_null() {
        return;
    }
    me.left.set(u64::MAX);
    me.calls.set(false);
    // The controller keeps it alive until every thread is done.
    let s = unsafe { &*s };
    let id = me.id.get();
    let mut st = s.m.lock().unwrap();
    st.status[id] = Status::Waiting;
    s.back.notify_all();
    while !take(me, s, &mut st) {
        st = s.go[id].wait(st).unwrap();
    }
}

/// Moves what the compiler does not let move; whether it does is decided by
/// the crate in `auto/`.
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
impl<T> Any<T> {
    fn get(self) -> T {
        self.0
    }
}

pub struct Ctl<'a>(&'a Shared);

/// Threads that wait for each other outside of the scheduler.
static STUCK: AtomicU32 = AtomicU32::new(0);

impl Ctl<'_> {
    /// Lets a thread run; whether it is done now. A thread that waits for
    /// another one is left to itself.
    pub fn run(&self, i: usize, g: Grant) -> bool {
        let mut st = self.0.m.lock().unwrap();
        if st.status[i] == Status::Done {
            return true;
        }
        let stuck = st.status[i] == Status::Running;
        if !stuck {
            st.grant[i] = Some(g);
            st.status[i] = Status::Running;
            self.0.go[i].notify_one();
        }
        let limit = Duration::from_millis(if STUCK.load(SeqCst) > 8 { 2 } else { 400 });
        while st.status[i] == Status::Running {
            let (s, t) = self.0.back.wait_timeout(st, limit).unwrap();
            st = s;
            if t.timed_out() && st.status[i] == Status::Running {
                STUCK.fetch_add(1, SeqCst);
                return false;
            }
        }
        st.status[i] == Status::Done
    }
    pub fn done(&self, i: usize) -> bool {
        self.0.m.lock().unwrap().status[i] == Status::Done
    }
}

type Work = Box<dyn FnOnce() + Send>;
thread_local! {
    /// Threads that wait for work; starting them costs more than most jobs.
    static POOL: RefCell<Vec<Sender<Work>>> = const { RefCell::new(Vec::new()) };
}
fn helper() -> Sender<Work> {
    if let Some(h) = POOL.with(|p| p.borrow_mut().pop()) {
        return h;
    }
    let (tx, rx) = channel::<Work>();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || rx.into_iter().for_each(|w| w()))
        .expect("thread");
    tx
}

/// Runs jobs as threads under the control of `drive`; what it leaves
/// unfinished is then finished in order.
pub fn run<R>(jobs: Vec<Box<dyn FnOnce() -> R + '_>>, drive: impl FnOnce(&Ctl<'_>)) -> Vec<R> {
    let n = jobs.len();
    let shared = Arc::new(Shared {
        m: Mutex::new(St {
            grant: vec![None; n],
            status: vec![Status::Waiting; n],
        }),
        back: Condvar::new(),
        go: (0..n).map(|_| Condvar::new()).collect(),
    });
    let mut results: Vec<Option<R>> = (0..n).map(|_| None).collect();
    let mut used = vec![];
    for ((id, job), slot) in jobs.into_iter().enumerate().zip(&mut results) {
        let it = Any((job, shared.clone(), slot));
        let work: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let (job, s, slot) = it.get();
            ME.with(|me| {
                me.shared.set(&*s);
                me.id.set(id);
                let mut st = s.m.lock().unwrap();
                while !take(me, s.as_ref(), &mut st) {
                    st = s.go[id].wait(st).unwrap();
                }
            });
            *slot = Some(job());
            ME.with(|me| {
                me.left.set(u64::MAX);
                me.calls.set(false);
                me.shared.set(std::ptr::null());
            });
            let mut st = s.m.lock().unwrap();
            st.status[id] = Status::Done;
            s.back.notify_all();
        });
        // What it borrows lives until every job is done, which is waited for.
        let work: Work = unsafe { std::mem::transmute(work) };
        let h = helper();
        h.send(work).expect("a helper is gone");
        used.push(h);
    }
    let ctl = Ctl(&shared);
    drive(&ctl);
    loop {
        let all = (0..n).fold(true, |all, i| ctl.run(i, FINISH) && all);
        if all {
            break;
        }
    }
    POOL.with(|p| p.borrow_mut().extend(used));
    results.into_iter().map(|r| r.expect("done")).collect()
}
