//! A small stateless explorer.
//!
//! A scenario is a deterministic function of the answers it gets from
//! [`Ch::n`]. The explorer runs it once for every possible sequence of answers
//! (depth-first, replaying a prefix and then taking 0 at every later choice
//! point), so a scenario that finishes has been enumerated completely. Nothing
//! is sampled. The work is split over threads by prefix.

use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub const STACK: usize = 64 << 20;
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

/// A set of state hashes: a vector that is sorted and deduplicated now and then.
#[derive(Default, Clone)]
pub struct States {
    v: Vec<u64>,
    clean: usize,
}
impl States {
    pub fn insert(&mut self, h: u64) {
        self.v.push(h);
        if self.v.len() > 2 * self.clean + (1 << 20) {
            self.tidy();
        }
    }
    fn tidy(&mut self) {
        if self.clean != self.v.len() {
            self.v.sort_unstable();
            self.v.dedup();
            self.clean = self.v.len();
        }
    }
    pub fn extend(&mut self, mut o: States) {
        if self.v.is_empty() {
            *self = o;
        } else {
            self.v.append(&mut o.v);
            self.clean = 0;
        }
    }
    pub fn len(&mut self) -> usize {
        self.tidy();
        self.v.len()
    }
}

/// Where a worker publishes the execution it is in, for the watchdog.
#[derive(Default)]
struct Slot {
    taken: Mutex<Vec<u32>>,
    started_ms: AtomicU64,
    busy: AtomicBool,
}

/// A source of choices.
pub struct Ch<'a> {
    prefix: &'a [u32],
    taken: Vec<(u32, u32)>,
    slot: Option<&'a Slot>,
    /// Set when replaying a recorded execution: diverging is a hard error.
    strict: bool,
}

impl<'a> Ch<'a> {
    /// Without an exploration.
    pub fn free(prefix: &'a [u32]) -> Ch<'a> {
        Ch {
            prefix,
            taken: Vec::new(),
            slot: None,
            strict: false,
        }
    }
    pub fn so_far(&self) -> Vec<u32> {
        self.taken.iter().map(|t| t.0).collect()
    }
    /// What was chosen so far, and out of how many.
    pub fn taken(self) -> Vec<(u32, u32)> {
        self.taken
    }
    /// Chooses a number in `0..n`.
    pub fn n(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let i = self.taken.len();
        let c = match self.prefix.get(i) {
            Some(&c) => {
                assert!(
                    (c as usize) < n,
                    "replay diverged: choice {c} of {n} at {i}"
                );
                c
            }
            None => {
                assert!(!self.strict, "replay diverged: ran past the recorded choices");
                0
            }
        };
        self.taken.push((c, n as u32));
        if let Some(s) = self.slot {
            s.taken.lock().unwrap().push(c);
        }
        c as usize
    }
    pub fn flag(&mut self) -> bool {
        self.n(2) == 1
    }
    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        &xs[self.n(xs.len())]
    }
    /// Chooses a number in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one worker recorded.
pub struct Rec {
    pub tier: Tier,
    pub execs: u64,
    pub traces: u64,
    pub transitions: u64,
    pub nontrivial: u64,
    pub states: States,
    pub outcomes: HashMap<u64, u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub verbose: bool,
}

impl Rec {
    pub fn new(tier: Tier) -> Self {
        Rec {
            tier,
            execs: 0,
            traces: 0,
            transitions: 0,
            nontrivial: 0,
            states: States::default(),
            outcomes: HashMap::new(),
            samples: Vec::new(),
            want_sample: false,
            verbose: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn outcome(&mut self, h: u64) {
        *self.outcomes.entry(h).or_default() += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample || self.verbose {
            let s = f();
            if self.verbose {
                println!("{s}");
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Rec) {
        self.execs += o.execs;
        self.traces += o.traces;
        self.transitions += o.transitions;
        self.nontrivial += o.nontrivial;
        self.states.extend(o.states);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

pub type Body<'f> = dyn Fn(&mut Ch, &mut Rec) -> Result<(), String> + Sync + 'f;

#[derive(Clone)]
pub struct Violation {
    pub choices: Vec<u32>,
    pub detail: String,
}

pub struct Explored {
    pub rec: Rec,
    pub violation: Option<Violation>,
    pub complete: bool,
    pub wall: f64,
}

/// Journal of executions about to run, for finding the one that killed the
/// process (see the supervisor in main.rs).
pub struct Journal(pub Option<std::path::PathBuf>);

pub fn run_one(body: &Body, choices: &[u32], rec: &mut Rec) -> Result<(), String> {
    let mut ch = Ch {
        prefix: choices,
        taken: Vec::new(),
        slot: None,
        strict: false,
    };
    guarded(body, &mut ch, rec)
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}
/// Remembers where the last panic of a thread was; prints nothing.
pub fn panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let file = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = (file, msg));
    }));
}

/// A panic of the harness ends the run without a verdict; any other panic
/// that a scenario lets through is one of the implementation.
fn guarded(body: &Body, ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(ch, rec))) {
        Ok(r) => r,
        Err(_) => {
            let (file, msg) = PANIC_AT.with(|p| p.borrow().clone());
            if file.starts_with("src/") || file.contains("mc/src/") {
                eprintln!("harness panic at {file}: {msg}\n  choices {:?}", ch.taken.iter().map(|t| t.0).collect::<Vec<_>>());
                std::process::exit(3);
            }
            Err(format!("panicked at {file}: {msg}"))
        }
    }
}

pub fn explore(
    body: &Body,
    tier: Tier,
    threads: usize,
    journal: &Journal,
    on_stuck: &(dyn Fn(&[u32], &str) + Sync),
) -> Explored {
    let t0 = Instant::now();
    let limit_ms: u64 = if matches!(tier, Tier::Thorough) { 240_000 } else { 40_000 };
    let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let qlen = AtomicUsize::new(1);
    let violations: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
    let total = Mutex::new(Rec::new(tier));

    let worker = |id: usize| {
        let mut rec = Rec::new(tier);
        let slot = &slots[id];
        let mut jf = journal.0.as_ref().map(|p| {
            std::fs::File::create(p.join(format!("journal.{id}"))).expect("journal")
        });
        'outer: loop {
            // Take a prefix from the queue.
            let mut prefix = {
                let mut q = queue.lock().unwrap();
                loop {
                    if stop.load(SeqCst) {
                        break 'outer;
                    }
                    if let Some(p) = q.pop() {
                        qlen.store(q.len(), SeqCst);
                        break p;
                    }
                    if idle.fetch_add(1, SeqCst) + 1 == threads {
                        stop.store(true, SeqCst);
                        cv.notify_all();
                        break 'outer;
                    }
                    q = cv.wait(q).unwrap();
                    idle.fetch_sub(1, SeqCst);
                }
            };
            // Explore everything below it.
            let mut floor = prefix.len();
            loop {
                if stop.load(SeqCst) {
                    break 'outer;
                }
                slot.taken.lock().unwrap().clear();
                slot.started_ms
                    .store(t0.elapsed().as_millis() as u64, SeqCst);
                slot.busy.store(true, SeqCst);
                if let Some(f) = &mut jf {
                    use std::io::{Seek, Write};
                    let mut s = String::from("[");
                    for c in &prefix {
                        s.push_str(&format!("{c},"));
                    }
                    s.push_str("]\n");
                    f.set_len(0).ok();
                    f.seek(std::io::SeekFrom::Start(0)).ok();
                    f.write_all(s.as_bytes()).ok();
                }
                let mut ch = Ch {
                    prefix: &prefix,
                    taken: Vec::new(),
                    slot: Some(slot),
                    strict: false,
                };
                rec.want_sample = rec.execs % 4096 == 7 && rec.samples.len() < 4;
                let r = guarded(body, &mut ch, &mut rec);
                slot.busy.store(false, SeqCst);
                rec.execs += 1;
                let taken = ch.taken;
                if let Err(detail) = r {
                    violations.lock().unwrap().push(Violation {
                        choices: taken.iter().map(|t| t.0).collect(),
                        detail,
                    });
                    stop.store(true, SeqCst);
                    cv.notify_all();
                    break 'outer;
                }
                // Give work away when other threads are hungry.
                if qlen.load(SeqCst) < threads {
                    let mut given = vec![];
                    while floor < taken.len() {
                        let (c, n) = taken[floor];
                        if c + 1 < n {
                            for a in (c + 1..n).rev() {
                                let mut p: Vec<u32> =
                                    taken[..floor].iter().map(|t| t.0).collect();
                                p.push(a);
                                given.push(p);
                            }
                            floor += 1;
                            break;
                        }
                        floor += 1;
                    }
                    if !given.is_empty() {
                        let mut q = queue.lock().unwrap();
                        q.extend(given);
                        qlen.store(q.len(), SeqCst);
                        cv.notify_all();
                    }
                }
                // Next sequence below the prefix.
                let mut i = taken.len();
                let next = loop {
                    if i <= floor {
                        break None;
                    }
                    i -= 1;
                    if taken[i].0 + 1 < taken[i].1 {
                        break Some(i);
                    }
                };
                match next {
                    Some(i) => {
                        prefix = taken[..i].iter().map(|t| t.0).collect();
                        prefix.push(taken[i].0 + 1);
                    }
                    None => break,
                }
            }
        }
        rec.states.tidy();
        total.lock().unwrap().merge(rec);
    };

    std::thread::scope(|s| {
        let mut hs = vec![];
        for id in 0..threads {
            let w = &worker;
            hs.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || w(id))
                    .unwrap(),
            );
        }
        let slots = &slots;
        let done = &done;
        let watch = s.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::park_timeout(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                let rss = rss_mb();
                let mut worst: Option<(u64, usize)> = None;
                for (i, s) in slots.iter().enumerate() {
                    if s.busy.load(SeqCst) {
                        let age = now.saturating_sub(s.started_ms.load(SeqCst));
                        if worst.map_or(true, |w| age > w.0) {
                            worst = Some((age, i));
                        }
                    }
                }
                if let Some((age, i)) = worst {
                    let why = if age > limit_ms {
                        "an execution did not finish in time"
                    } else if rss > 14_000 && age > 500 {
                        "memory ran away during an execution"
                    } else {
                        continue;
                    };
                    let taken = slots[i].taken.lock().unwrap().clone();
                    on_stuck(&taken, why);
                }
            }
        });
        for h in hs {
            if let Err(e) = h.join() {
                // A bug of the harness itself, never a verdict.
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                eprintln!("harness panic: {msg}");
                std::process::exit(3);
            }
        }
        done.store(true, SeqCst);
        watch.thread().unpark();
    });

    let mut vs = violations.into_inner().unwrap();
    vs.sort_by(|a, b| {
        (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices))
    });
    let violation = vs.into_iter().next();
    Explored {
        rec: total.into_inner().unwrap(),
        complete: violation.is_none(),
        violation,
        wall: t0.elapsed().as_secs_f64(),
    }
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096 / (1 << 20))
}
