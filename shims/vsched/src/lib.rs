//! Controlled scheduler shared by the stand-in crates and the model checker.
//!
//! Without an exploration in progress on the calling thread, `run_tasks` runs its tasks one after
//! another in the caller's thread, and `point` does nothing.
//!
//! Inside `explore`, every task of `run_tasks` is an OS thread, but only the one that holds the
//! baton runs. At every `point()` (the stand-in storage engine calls it on each operation), at
//! every task start and at every task end, the scheduler takes the next choice from a depth-first
//! search over choice sequences. Switching away from a task that could have continued is a
//! preemption, and the number of preemptions per execution is bounded.
pub mod atomics;
pub mod quiet;

use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Runnable,
    /// waits until all the tasks of this group are done
    Joining(usize),
    /// had the baton but did not come back: it waits for something another task holds
    Blocked,
    Done,
}

struct Group {
    remaining: usize,
}

struct State {
    status: Vec<Status>,
    groups: Vec<Group>,
    current: usize,
    // choices: replayed prefix, then the defaults taken
    prefix: Vec<usize>,
    trace: Vec<(usize, Vec<u32>)>, // (choice taken, cost of each alternative)
    preemptions: u32,
    bound: u32,
    points: u64,
    diverged: bool,
    /// counts the changes of hands, to notice when there are none
    epoch: u64,
    /// one for each task, so that handing on the baton wakes only the one it goes to
    wake: Vec<Arc<Condvar>>,
}

pub struct Sched {
    state: Mutex<State>,
}

thread_local! {
    static CURRENT: RefCell<Option<(Arc<Sched>, usize)>> = RefCell::new(None);
}

#[inline(never)]
fn current() -> Option<(Arc<Sched>, usize)> {
    CURRENT.try_with(|c| c.borrow().clone()).ok().flatten()
}

/// how long the task with the baton may stay away before another one goes on
const STALL_MS: u64 = 1500;

impl Sched {
    /// waits for the baton. If the task that has it makes no progress, it is taken to be waiting
    /// for something that one of the others holds (a lock), and a runnable one goes on without it.
    fn wait_turn<'a>(&'a self, mut st: MutexGuard<'a, State>, me: usize) -> MutexGuard<'a, State> {
        let mut seen = st.epoch;
        let cv = st.wake[me].clone();
        while st.current != me {
            let (s, timeout) = cv
                .wait_timeout(st, std::time::Duration::from_millis(STALL_MS))
                .unwrap_or_else(|e| e.into_inner());
            st = s;
            if timeout.timed_out() && st.current != me && st.epoch == seen {
                let c = st.current;
                if st.status[me] == Status::Runnable && st.status[c] == Status::Runnable {
                    st.status[c] = Status::Blocked;
                    st.diverged = true;
                    st.hand(me);
                    break;
                }
            }
            seen = st.epoch;
        }
        st
    }
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl State {
    fn hand(&mut self, to: usize) {
        self.current = to;
        self.epoch += 1;
        self.wake[to].notify_all();
    }
    /// picks the next task to run; `me` is the task giving up the baton
    fn pick(&mut self, me: usize) -> usize {
        let mut enabled: Vec<usize> = Vec::new();
        let me_enabled = self.status[me] == Status::Runnable;
        if me_enabled {
            enabled.push(me);
        }
        for (i, s) in self.status.iter().enumerate() {
            if i != me && *s == Status::Runnable {
                enabled.push(i);
            }
        }
        if enabled.is_empty() {
            // whoever is blocked goes on by itself once what it waits for is released
            if let Some(b) = self.status.iter().position(|s| *s == Status::Blocked) {
                return b;
            }
            panic!("vsched: no task can run");
        }
        if enabled.len() == 1 {
            return enabled[0];
        }
        let costs: Vec<u32> = enabled
            .iter()
            .map(|t| if me_enabled && *t != me { 1 } else { 0 })
            .collect();
        let k = self.trace.len();
        let choice = if k < self.prefix.len() {
            let c = self.prefix[k];
            if c >= enabled.len() {
                self.diverged = true;
                0
            } else {
                c
            }
        } else {
            0
        };
        self.preemptions += costs[choice];
        self.trace.push((choice, costs));
        enabled[choice]
    }
}

/// A scheduling point.
#[inline(never)]
pub fn point() {
    if let Some((sched, me)) = current() {
        let mut st = sched.lock();
        st.points += 1;
        st.epoch += 1;
        if st.status[me] == Status::Blocked {
            // back from what it waited for, while another task went on
            st.status[me] = Status::Runnable;
            let _st = sched.wait_turn(st, me);
            return;
        }
        let next = st.pick(me);
        if next != me {
            st.hand(next);
            let _st = sched.wait_turn(st, me);
        }
    }
}

thread_local! {
    /// whether atomic operations of this thread are scheduling points, and how many of them in a
    /// row changed nothing
    static ATOMICS: std::cell::Cell<(bool, u32)> = const { std::cell::Cell::new((false, 0)) };
}

/// Makes the atomic operations of instrumented crates scheduling points in the executions that
/// this thread starts.
#[inline(never)]
pub fn atomics(on: bool) {
    ATOMICS.with(|a| a.set((on, 0)));
}

/// how many atomic operations the calling thread's executions met
pub static ATOMIC_POINTS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

thread_local! {
    static HUSHED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// While it is on, atomic operations of this thread are no scheduling points. Returns what was.
#[inline(never)]
pub fn hush(on: bool) -> bool {
    HUSHED.try_with(|h| h.replace(on)).unwrap_or(false)
}

fn atomic_point(writes: bool) {
    if HUSHED.try_with(|h| h.get()).unwrap_or(true) {
        return;
    }
    let Ok((on, idle)) = ATOMICS.try_with(|a| a.get()) else { return };
    if !on || !controlled() {
        return;
    }
    ATOMIC_POINTS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if !writes && idle > 1000 {
        // it spins
        ATOMICS.with(|a| a.set((on, 0)));
        yield_away();
        return;
    }
    ATOMICS.with(|a| a.set((on, if writes { 0 } else { idle + 1 })));
    point();
}

/// Lets the next task that can run go on; it is no choice of the search. False if there is none.
#[inline(never)]
fn yield_away() -> bool {
    if HUSHED.try_with(|h| h.get()).unwrap_or(true) {
        return false;
    }
    let Some((sched, me)) = current() else { return false };
    let mut st = sched.lock();
    if st.status[me] != Status::Runnable || st.current != me {
        return false;
    }
    let n = st.status.len();
    let next = (1..n).map(|k| (me + k) % n).find(|i| st.status[*i] == Status::Runnable);
    match next {
        None => false,
        Some(i) => {
            st.hand(i);
            let _st = sched.wait_turn(st, me);
            true
        }
    }
}

/// true while the calling thread is driven by an exploration
#[inline(never)]
pub fn controlled() -> bool {
    current().is_some()
}

pub type Task<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Runs all tasks to completion. Panics of tasks are propagated (the first by task order).
#[inline(never)]
pub fn run_tasks(tasks: Vec<Task<'_>>) {
    let (sched, me) = match current() {
        None => {
            for t in tasks {
                t();
            }
            return;
        }
        Some(c) => c,
    };
    if tasks.is_empty() {
        return;
    }
    let n = tasks.len();
    let (group, first) = {
        let mut st = sched.lock();
        let g = st.groups.len();
        st.groups.push(Group { remaining: n });
        let first = st.status.len();
        for _ in 0..n {
            st.status.push(Status::Runnable);
            st.wake.push(Arc::new(Condvar::new()));
        }
        st.status[me] = Status::Joining(g);
        (g, first)
    };
    let panics: Mutex<Vec<(usize, Box<dyn Any + Send>)>> = Mutex::new(Vec::new());
    let inherit = inherited();
    let atomic = ATOMICS.with(|a| a.get().0);
    pool::scope(|scope| {
        for (i, t) in tasks.into_iter().enumerate() {
            let sched = sched.clone();
            let panics = &panics;
            let inherit = inherit.clone();
            scope.spawn(Box::new(move || {
                let id = first + i;
                CURRENT.with(|c| *c.borrow_mut() = Some((sched.clone(), id)));
                set_inherited(inherit);
                atomics(atomic);
                {
                    let st = sched.lock();
                    let _st = sched.wait_turn(st, id);
                }
                if let Err(p) = catch_unwind(AssertUnwindSafe(t)) {
                    panics.lock().unwrap_or_else(|e| e.into_inner()).push((i, p));
                }
                let mut st = sched.lock();
                let had = st.current == id;
                st.status[id] = Status::Done;
                st.groups[group].remaining -= 1;
                if st.groups[group].remaining == 0 {
                    for s in 0..st.status.len() {
                        if st.status[s] == Status::Joining(group) {
                            st.status[s] = Status::Runnable;
                        }
                    }
                }
                // one that was taken to be blocked does not have the baton
                if had || st.status[st.current] == Status::Done {
                    let next = st.pick(id);
                    st.hand(next);
                }
                CURRENT.with(|c| *c.borrow_mut() = None);
                atomics(false);
            }));
        }
        // hand the baton to one of the tasks and wait for it to come back
        let mut st = sched.lock();
        let next = st.pick(me);
        st.hand(next);
        let _st = sched.wait_turn(st, me);
    });
    let mut panics = panics.into_inner().unwrap_or_else(|e| e.into_inner());
    panics.sort_by_key(|p| p.0);
    if let Some((_, p)) = panics.into_iter().next() {
        resume_unwind(p);
    }
}

/// Threads are kept for the next execution: starting them anew would take most of the time.
mod pool {
    use std::sync::mpsc::{channel, Sender};
    use std::sync::{Arc, Condvar, Mutex};
    type Job = Box<dyn FnOnce() + Send + 'static>;
    static IDLE: Mutex<Vec<Sender<(Job, Latch)>>> = Mutex::new(Vec::new());
    type Latch = Arc<(Mutex<usize>, Condvar)>;

    pub struct Scope {
        latch: Latch,
    }
    impl Scope {
        pub fn spawn<'a>(&self, job: Box<dyn FnOnce() + Send + 'a>) {
            // sound because `scope` returns only once every job is done and dropped
            let job: Job = unsafe { std::mem::transmute(job) };
            *self.latch.0.lock().unwrap_or_else(|e| e.into_inner()) += 1;
            let idle = IDLE.lock().unwrap_or_else(|e| e.into_inner()).pop();
            let worker = idle.unwrap_or_else(|| {
                let (tx, rx) = channel::<(Job, Latch)>();
                let own = tx.clone();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        while let Ok((job, latch)) = rx.recv() {
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                            IDLE.lock().unwrap_or_else(|e| e.into_inner()).push(own.clone());
                            *latch.0.lock().unwrap_or_else(|e| e.into_inner()) -= 1;
                            latch.1.notify_all();
                        }
                    })
                    .expect("spawn");
                tx
            });
            worker.send((job, self.latch.clone())).expect("a pooled thread");
        }
    }
    struct Wait(Latch);
    impl Drop for Wait {
        fn drop(&mut self) {
            let mut n = (self.0).0.lock().unwrap_or_else(|e| e.into_inner());
            while *n > 0 {
                n = (self.0).1.wait(n).unwrap_or_else(|e| e.into_inner());
            }
        }
    }
    pub fn scope(f: impl FnOnce(&Scope)) {
        let latch: Latch = Arc::new((Mutex::new(0), Condvar::new()));
        let _wait = Wait(latch.clone());
        f(&Scope { latch });
    }
}

// values handed from the thread that starts tasks to the threads that run them (knobs of the
// stand-in crates)
thread_local! {
    static INHERIT: RefCell<Vec<u64>> = RefCell::new(vec![0; 8]);
}
fn inherited() -> Vec<u64> {
    INHERIT.with(|i| i.borrow().clone())
}
fn set_inherited(v: Vec<u64>) {
    INHERIT.with(|i| *i.borrow_mut() = v);
}
/// knob 0: tie policy of the priority queue; knob 1: result order of the spatial index
pub fn knob(i: usize) -> u64 {
    INHERIT.try_with(|v| v.borrow()[i]).unwrap_or(0)
}
pub fn set_knob(i: usize, value: u64) {
    INHERIT.with(|v| v.borrow_mut()[i] = value);
}

pub struct Execution<R> {
    pub result: R,
    pub choices: Vec<usize>,
    pub points: u64,
    pub preemptions: u32,
    /// it did not follow the given choices to the end, or a task was blocked by something other
    /// than the scheduler
    pub diverged: bool,
}

/// Runs `body` once with the given choice prefix.
pub fn run_once<R>(prefix: &[usize], bound: u32, body: impl FnOnce() -> R) -> (Execution<R>, Vec<Vec<u32>>) {
    let was = hush(true);
    let sched = Arc::new(Sched {
        state: Mutex::new(State {
            status: vec![Status::Runnable],
            groups: Vec::new(),
            current: 0,
            prefix: prefix.to_vec(),
            trace: Vec::new(),
            preemptions: 0,
            bound,
            points: 0,
            diverged: false,
            epoch: 0,
            wake: vec![Arc::new(Condvar::new())],
        }),
    });
    let saved = CURRENT.with(|c| c.borrow_mut().replace((sched.clone(), 0)));
    hush(false);
    let r = catch_unwind(AssertUnwindSafe(body));
    hush(true);
    CURRENT.with(|c| *c.borrow_mut() = saved);
    let st = sched.lock();
    let _ = st.bound;
    let choices = st.trace.iter().map(|t| t.0).collect();
    let costs = st.trace.iter().map(|t| t.1.clone()).collect();
    match r {
        Ok(result) => {
            let ex = Execution {
                result,
                choices,
                points: st.points,
                preemptions: st.preemptions,
                diverged: st.diverged,
            };
            drop(st);
            drop(sched);
            hush(was);
            (ex, costs)
        }
        Err(p) => {
            drop(st);
            hush(was);
            resume_unwind(p)
        }
    }
}

pub struct Stats {
    pub executions: u64,
    pub points: u64,
    pub max_preemptions: u32,
    pub exhausted: bool,
    pub diverged: u64,
}

/// Depth-first search over all choice sequences with at most `bound` preemptions. `check` sees each
/// complete execution and returns false to stop. At most `cap` executions.
pub fn explore<R>(
    bound: u32,
    cap: u64,
    body: impl FnMut() -> R,
    check: impl FnMut(&Execution<R>) -> bool,
) -> Stats {
    explore_until(bound, cap, None, body, check)
}

/// The same, ending early at a point in time.
pub fn explore_until<R>(
    bound: u32,
    cap: u64,
    until: Option<std::time::Instant>,
    mut body: impl FnMut() -> R,
    mut check: impl FnMut(&Execution<R>) -> bool,
) -> Stats {
    let mut stats = Stats { executions: 0, points: 0, max_preemptions: 0, exhausted: false, diverged: 0 };
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(prefix) = stack.pop() {
        if stats.executions >= cap || until.map_or(false, |u| std::time::Instant::now() > u) {
            return stats;
        }
        let (ex, costs) = run_once(&prefix, bound, &mut body);
        stats.executions += 1;
        stats.points += ex.points;
        stats.max_preemptions = stats.max_preemptions.max(ex.preemptions);
        if !check(&ex) {
            return stats;
        }
        if ex.diverged {
            // what follows from it cannot be repeated
            stats.diverged += 1;
            continue;
        }
        // alternatives to the defaults taken after the prefix
        let mut spent = 0;
        for (i, cost) in costs.iter().enumerate() {
            if i >= prefix.len() {
                for alt in 1..cost.len() {
                    if spent + cost[alt] <= bound {
                        let mut p = ex.choices[..i].to_vec();
                        p.push(alt);
                        stack.push(p);
                    }
                }
            }
            spent += cost[ex.choices[i]];
        }
    }
    stats.exhausted = stats.diverged == 0;
    stats
}
