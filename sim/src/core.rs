//! Deterministic simulation core: choice stream, virtual time, seeded executor, event log.
//!
//! One run happens on one OS thread. All nondeterminism is drawn from the choice stream
//! (`below`), which is either a PRNG seeded from the run seed or a recorded list (replay).

use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::fmt::Write as _;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// xoshiro256**
#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

#[derive(Debug, Clone)]
pub struct Violation {
    /// Stable class, used while shrinking ("the same violation class persists").
    pub class: String,
    pub msg: String,
}

struct Ev {
    at: u64,
    seq: u64,
    f: Box<dyn FnOnce()>,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

pub struct World {
    src: Source,
    pub rec: Vec<u64>,
    pub now: u64,
    seq: u64,
    events: BinaryHeap<Reverse<Ev>>,
    pub step: u64,
    /// Step at which storage last completed a read.
    pub progress: u64,
    pub cur_task: usize,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub log_len: u64,
    pub trace: Option<Vec<String>>,
    pub counters: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub notes: Vec<String>,
    pub multi: u64,
    pub next_fault: u64,
    scratch: String,
    record: Option<std::fs::File>,
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
    /// Virtual time in microseconds plus one; 0 outside simulations.
    pub static CLOCK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub fn install(src: Source, trace: bool) {
    let w = World {
        src,
        rec: Vec::new(),
        now: 0,
        seq: 0,
        events: BinaryHeap::new(),
        step: 0,
            progress: 0,
        cur_task: usize::MAX,
        log_hash: 0xcbf29ce484222325,
        sched_hash: 0xcbf29ce484222325,
        log_len: 0,
        trace: if trace { Some(Vec::new()) } else { None },
        counters: BTreeMap::new(),
        violation: None,
        notes: Vec::new(),
        multi: 0,
        next_fault: 1,
        scratch: String::new(),
        record: None,
    };
    W.with(|c| *c.borrow_mut() = Some(w));
}

/// Also write every choice to a file as it is made (for runs that kill the process).
pub fn set_record(f: Option<std::fs::File>) {
    with(|w| w.record = f)
}
pub fn take_world() -> Option<World> {
    W.with(|c| c.borrow_mut().take())
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|c| f(c.borrow_mut().as_mut().expect("harness: no simulation on this thread")))
}

fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h ^= *x as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
}

/// Append to the event log. Never draws choices.
pub fn log_args(a: std::fmt::Arguments<'_>) {
    with(|w| {
        let mut s = std::mem::take(&mut w.scratch);
        s.clear();
        let _ = write!(s, "[{} t={}] ", w.step, w.now);
        let _ = s.write_fmt(a);
        fnv(&mut w.log_hash, s.as_bytes());
        w.log_len += 1;
        if let Some(t) = &mut w.trace {
            if t.len() < 20000 {
                t.push(s.clone());
            }
        }
        w.scratch = s;
    })
}
#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::core::log_args(format_args!($($t)*)) };
}

// ---------------------------------------------------------------- choices

pub fn below(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    with(|w| {
        let v = match &mut w.src {
            Source::Random(r) => r.below(n),
            Source::Replay(v, pos) => {
                let x = v.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                x % n
            }
        };
        w.rec.push(v);
        if let Some(f) = &mut w.record {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    })
}
/// Inclusive range.
pub fn range(a: u64, b: u64) -> u64 {
    a + below(b - a + 1)
}
/// True with probability p/1000; 0 is "false".
pub fn chance(p: u64) -> bool {
    if p == 0 {
        return false;
    }
    below(1000) >= 1000 - p.min(1000)
}
pub fn coin() -> bool {
    below(2) == 1
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[below(xs.len() as u64) as usize].clone()
}
/// Weighted index.
pub fn weighted(ws: &[u64]) -> usize {
    let t: u64 = ws.iter().sum();
    let mut v = below(t);
    for (i, w) in ws.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    ws.len() - 1
}
/// A number in 0..=max, biased towards small values.
pub fn small(max: u64) -> u64 {
    if max == 0 {
        return 0;
    }
    let bits = 64 - max.leading_zeros() as u64;
    let b = below(bits + 1);
    let cap = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
    below(cap.min(max) + 1).min(max)
}
pub fn raw64() -> u64 {
    below(u64::MAX)
}
pub fn shuffle<T>(v: &mut [T]) {
    // Identity when all choices are 0.
    let n = v.len();
    for i in 0..n.saturating_sub(1) {
        let j = i + below((n - i) as u64) as usize;
        v.swap(i, j);
    }
}

pub fn count(k: &'static str) {
    count_n(k, 1)
}
pub fn count_n(k: &'static str, n: u64) {
    with(|w| *w.counters.entry(k).or_insert(0) += n)
}
/// "This rare condition was hit".
pub fn probe(k: &'static str) {
    count(k)
}
pub fn violate(class: &str, msg: String) {
    ev!("VIOLATION {} {}", class, msg);
    with(|w| {
        if w.violation.is_none() {
            w.violation = Some(Violation { class: class.to_string(), msg });
        }
    })
}
pub fn violated() -> bool {
    with(|w| w.violation.is_some())
}
pub fn progress() {
    with(|w| w.progress = w.step)
}
/// Too many steps: since storage last answered, or altogether.
fn stuck(start: u64, max: u64) -> bool {
    let (at, last) = with(|w| (w.step, w.progress));
    at - start.max(last) > max || at - start > 20 * max
}
pub fn step() -> u64 {
    with(|w| w.step)
}
pub fn cur_task() -> usize {
    with(|w| w.cur_task)
}
pub fn next_fault_id() -> u64 {
    with(|w| {
        let i = w.next_fault;
        w.next_fault += 1;
        i
    })
}
/// Check helper: record a violation and return from the surrounding scope if the condition fails.
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond { $crate::core::violate($class, format!($($t)*)); }
    };
}

// ---------------------------------------------------------------- virtual time

pub fn after(d: u64, f: impl FnOnce() + 'static) {
    with(|w| {
        w.seq += 1;
        let e = Ev { at: w.now + d, seq: w.seq, f: Box::new(f) };
        w.events.push(Reverse(e));
    })
}
fn events_pending() -> bool {
    with(|w| !w.events.is_empty())
}
/// Fire the next event; advances the clock.
fn fire_next() {
    let f = with(|w| {
        let Reverse(e) = w.events.pop().unwrap();
        w.now = e.at;
        CLOCK.with(|c| c.set(e.at.saturating_add(1)));
        fnv(&mut w.sched_hash, &[0xEE]);
        w.step += 1;
        e.f
    });
    f();
}
pub fn drop_events() {
    let evs = with(|w| std::mem::take(&mut w.events));
    drop(evs);
}

#[derive(Default)]
struct TimerState {
    done: bool,
    waker: Option<Waker>,
}
/// A one-shot completion in virtual time. `Send` so it can live inside `async_trait` futures; it
/// is only ever touched by the simulation thread.
pub struct Timer(Arc<Mutex<TimerState>>);
impl Timer {
    pub fn after(d: u64) -> Timer {
        let st = Arc::new(Mutex::new(TimerState::default()));
        let s2 = st.clone();
        after(d, move || {
            let w = {
                let mut g = s2.lock().unwrap();
                g.done = true;
                g.waker.take()
            };
            if let Some(w) = w {
                w.wake()
            }
        });
        Timer(st)
    }
    pub fn poll_done(&self, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.lock().unwrap();
        if g.done {
            Poll::Ready(())
        } else {
            g.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl Future for Timer {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.poll_done(cx)
    }
}
pub async fn sleep(d: u64) {
    Timer::after(d).await
}
/// Suspend once, waking immediately.
pub struct YieldNow(bool);
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

// ---------------------------------------------------------------- executor

struct TaskWaker {
    ready: AtomicBool,
    outer: Arc<Mutex<Option<Waker>>>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.ready.store(true, Ordering::SeqCst);
        if let Some(w) = self.outer.lock().unwrap().as_ref() {
            w.wake_by_ref()
        }
    }
}
type LocalFut = Pin<Box<dyn Future<Output = ()>>>;
struct Task {
    fut: Option<LocalFut>,
    waker: Arc<TaskWaker>,
    prio: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy {
    Uniform,
    Priority,
}
pub struct Exec {
    tasks: Vec<Task>,
    outer: Arc<Mutex<Option<Waker>>>,
    policy: Policy,
    spurious: u64,
    eager_events: bool,
    pub max_steps: u64,
}
pub struct JoinCell<T>(Rc<RefCell<Option<T>>>);
impl<T> JoinCell<T> {
    pub fn take(&self) -> Option<T> {
        self.0.borrow_mut().take()
    }
}
impl Exec {
    /// Swarm: the scheduling policy itself is drawn per executor.
    pub fn new() -> Exec {
        let policy = if below(3) == 2 { Policy::Priority } else { Policy::Uniform };
        let spurious = pick(&[0, 0, 20, 100]);
        let eager_events = below(4) != 3;
        Exec { tasks: vec![], outer: Default::default(), policy, spurious, eager_events, max_steps: 500_000 }
    }
    pub fn spawn<T: 'static>(&mut self, fut: impl Future<Output = T> + 'static) -> JoinCell<T> {
        let cell = JoinCell(Rc::new(RefCell::new(None)));
        let c2 = JoinCell(cell.0.clone());
        let prio = if self.policy == Policy::Priority { below(1 << 16) } else { 0 };
        self.tasks.push(Task {
            fut: Some(Box::pin(async move {
                let v = fut.await;
                *c2.0.borrow_mut() = Some(v);
            })),
            waker: Arc::new(TaskWaker { ready: AtomicBool::new(true), outer: self.outer.clone() }),
            prio,
        });
        cell
    }
    fn poll_task(&mut self, i: usize) {
        let t = &mut self.tasks[i];
        t.waker.ready.store(false, Ordering::SeqCst);
        let w = Waker::from(t.waker.clone());
        let mut cx = Context::from_waker(&w);
        with(|w| {
            w.cur_task = i;
            w.step += 1;
            fnv(&mut w.sched_hash, &(i as u16).to_le_bytes());
        });
        let fut = t.fut.as_mut().unwrap();
        let done = fut.as_mut().poll(&mut cx).is_ready();
        if done {
            ev!("task {} done", i);
            let f = self.tasks[i].fut.take();
            drop(f);
        }
        with(|w| w.cur_task = usize::MAX);
    }
    /// One scheduler step. Ok(true): progress, Ok(false): nothing runnable.
    fn step(&mut self) -> bool {
        let ready: Vec<usize> = (0..self.tasks.len())
            .filter(|&i| self.tasks[i].fut.is_some() && self.tasks[i].waker.ready.load(Ordering::SeqCst))
            .collect();
        if self.spurious > 0 && chance(self.spurious) {
            let alive: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.tasks[i].fut.is_some()).collect();
            if !alive.is_empty() {
                let i = pick(&alive);
                count("sched.spurious_poll");
                self.poll_task(i);
                return true;
            }
        }
        if ready.is_empty() {
            if events_pending() {
                fire_next();
                return true;
            }
            return false;
        }
        let evp = events_pending() && self.eager_events;
        let n = ready.len() + evp as usize;
        if n > 1 {
            with(|w| w.multi += 1);
        }
        match self.policy {
            Policy::Uniform => {
                let k = below(n as u64) as usize;
                if k == ready.len() {
                    fire_next();
                } else {
                    self.poll_task(ready[k]);
                }
            }
            Policy::Priority => {
                if evp && chance(100) {
                    fire_next();
                    return true;
                }
                let i = *ready.iter().max_by_key(|&&i| (self.tasks[i].prio, Reverse(i))).unwrap();
                if chance(50) {
                    // priority change point
                    self.tasks[i].prio = below(1 << 16);
                }
                self.poll_task(i);
            }
        }
        true
    }
    fn alive(&self) -> usize {
        self.tasks.iter().filter(|t| t.fut.is_some()).count()
    }
    /// Run until all tasks are done, a violation is recorded, nothing can run (deadlock) or the
    /// step bound is exceeded (no bounded progress).
    pub fn run(&mut self) {
        let start = step();
        loop {
            if violated() || self.alive() == 0 {
                break;
            }
            if stuck(start, self.max_steps) {
                violate("no-progress", format!("{} operations unfinished after {} scheduler steps", self.alive(), step() - start));
                break;
            }
            if !self.step() {
                violate("deadlock", format!("{} operations wait for ever: no task is runnable and no I/O is outstanding", self.alive()));
                break;
            }
        }
        self.drop_tasks();
    }
    fn drop_tasks(&mut self) {
        for t in &mut self.tasks {
            t.fut = None;
        }
        self.tasks.clear();
    }
    /// Run as a future inside another reactor (used for the HTTP reader, whose sockets need a tokio
    /// reactor): polls ready tasks in seeded order and suspends when none is ready.
    pub async fn run_nested(&mut self) {
        let start = step();
        // The clock is virtual: it gets there only when nothing else is left to happen.
        let mut end = std::pin::pin!(tokio::time::sleep(std::time::Duration::from_secs(30 * 86400)));
        std::future::poll_fn(|cx| {
            *self.outer.lock().unwrap() = Some(cx.waker().clone());
            let mut burst = 0;
            loop {
                if violated() || self.alive() == 0 {
                    return Poll::Ready(());
                }
                if stuck(start, self.max_steps) {
                    violate("no-progress", format!("{} operations unfinished after {} scheduler steps", self.alive(), step() - start));
                    return Poll::Ready(());
                }
                let ready: Vec<usize> = (0..self.tasks.len())
                    .filter(|&i| self.tasks[i].fut.is_some() && self.tasks[i].waker.ready.load(Ordering::SeqCst))
                    .collect();
                if ready.is_empty() {
                    if end.as_mut().poll(cx).is_ready() {
                        violate("no-progress", format!("{} operations wait for ever", self.alive()));
                        return Poll::Ready(());
                    }
                    return Poll::Pending;
                }
                burst += 1;
                if burst > 64 {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                if ready.len() > 1 {
                    with(|w| w.multi += 1);
                }
                let i = pick(&ready);
                self.poll_task(i);
            }
        })
        .await;
        *self.outer.lock().unwrap() = None;
        self.drop_tasks();
    }
}

/// Run one future to completion under the seeded executor.
pub fn block_on<T: 'static>(fut: impl Future<Output = T> + 'static) -> Option<T> {
    let mut e = Exec::new();
    let c = e.spawn(fut);
    e.run();
    c.take()
}

// ---------------------------------------------------------------- cancellation

/// When to drop an operation.
#[derive(Clone, Copy, Debug)]
pub enum Cancel {
    Never,
    /// Drop right after the n-th suspension.
    AtSuspend(u64),
    /// Drop when woken after the n-th suspension, instead of polling again.
    AtWake(u64),
}
pub fn draw_cancel(p: u64, max: u64) -> Cancel {
    if !chance(p) {
        return Cancel::Never;
    }
    let n = 1 + small(max);
    if coin() {
        Cancel::AtWake(n)
    } else {
        Cancel::AtSuspend(n)
    }
}
/// Poll `fut`, dropping it at the given point. `None`: it was cancelled.
pub async fn cancellable<F: Future>(c: Cancel, fut: F) -> Option<F::Output> {
    let mut fut = Some(Box::pin(fut));
    let mut n = 0u64;
    std::future::poll_fn(move |cx| {
        if let Cancel::AtWake(k) = c {
            if n >= k {
                fut = None;
                count("fault.cancel_at_wake");
                ev!("cancelled at wake");
                return Poll::Ready(None);
            }
        }
        match fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                n += 1;
                if let Cancel::AtSuspend(k) = c {
                    if n >= k {
                        fut = None;
                        count("fault.cancel_at_suspend");
                        ev!("cancelled at suspend");
                        return Poll::Ready(None);
                    }
                }
                Poll::Pending
            }
        }
    })
    .await
}
