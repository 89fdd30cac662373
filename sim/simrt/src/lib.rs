//! Deterministic simulator core: one thread, one world, one seed.
//!
//! Every source of nondeterminism draws from here. Decisions are recorded sparsely (only
//! non-zero ones) under a key (kind, op, index) so that a run can be replayed and shrunk: a
//! decision that is missing in a replay is 0, the benign choice.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type OpId = u32;
pub type NodeId = u32;
pub type TaskId = usize;

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    /// true with probability pm/1000
    pub fn pm(&mut self, pm: u32) -> bool {
        self.below(1000) < pm as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD134_2543_DE82_EF95));
    r.next()
}

/// Kinds of decisions.
pub const K_SCHED: u8 = b'S';
pub const K_PREEMPT: u8 = b'P';
pub const K_DELAY: u8 = b'D';
pub const K_NET: u8 = b'N';
pub const K_GET: u8 = b'G';
pub const K_APPEND: u8 = b'A';
pub const K_OPEN: u8 = b'O';
pub const K_SPUR: u8 = b'U';
pub const K_CLOCK: u8 = b'C';

pub type Trace = BTreeMap<(u8, OpId, u32), u32>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    /// every candidate equally likely
    Uniform,
    /// keep running the current task with the given permille
    Sticky(u32),
    /// random priorities, with demotions at random points (PCT)
    Pct(u32),
    /// prefer tasks over I/O completions (permille)
    LazyIo(u32),
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub policy: Policy,
    pub preempt_pm: u32,
    pub max_delay_us: u32,
    pub slow_pm: u32,
    /// spurious polls of tasks that were not woken, per step
    pub spurious_pm: u32,
    /// jumps of the clocks, per step
    pub clock_pm: u32,
    /// steps without [`progress`] after which the run ends as a livelock
    pub max_steps: u64,
}
impl Default for SchedCfg {
    fn default() -> Self {
        Self { policy: Policy::Uniform, preempt_pm: 0, max_delay_us: 100, slow_pm: 20, spurious_pm: 0, clock_pm: 0, max_steps: 400_000 }
    }
}

#[derive(Default)]
struct TaskWake {
    woken: AtomicBool,
    /// being polled now
    polling: AtomicBool,
    /// woken by something else than its own poll
    by_other: AtomicBool,
}
impl Wake for TaskWake {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        if !self.polling.load(Ordering::SeqCst) {
            self.by_other.store(true, Ordering::SeqCst);
        }
    }
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    wake: Arc<TaskWake>,
    node: NodeId,
    op: OpId,
    name: &'static str,
    prio: u64,
    /// background tasks (network pumps) do not keep the run alive
    daemon: bool,
    /// polls in a row that it asked for itself and that found nothing it waits for ready
    spins: u32,
    /// times in a row that it gave way without getting on
    yields: u32,
}

struct SleepState {
    fired: AtomicBool,
    waker: Mutex<Option<Waker>>,
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub task: &'static str,
    pub node: NodeId,
    pub op: OpId,
    pub msg: String,
    pub seq: u64,
}

pub struct World {
    rng: Option<Rng>,
    pub trace: Trace,
    replay: Option<Trace>,
    counters: BTreeMap<(u8, OpId), u32>,
    pub cfg: SchedCfg,
    now_us: u64,
    seq: u64,
    steps: u64,
    /// step of the latest [`progress`]
    progress: u64,
    events: BTreeMap<(u64, u64), Arc<SleepState>>,
    next_event: u64,
    tasks: BTreeMap<TaskId, Task>,
    next_task: TaskId,
    cur: Option<TaskId>,
    cur_node: NodeId,
    cur_op: OpId,
    last: Option<TaskId>,
    streak: u32,
    pub stats: BTreeMap<&'static str, u64>,
    pub panics: Vec<PanicRec>,
    pub kill: BTreeSet<NodeId>,
    polls_in_step: u64,
    /// the current poll was asked for by the task itself only
    self_polled: bool,
    /// something it waits for was ready, or it began to wait for something
    moved: bool,
    /// it waits for something that it already waited for
    waited: bool,
    /// most [`Task::spins`] of each operation
    pub spins: BTreeMap<OpId, u32>,
    /// timers each operation waited for
    pub timers: BTreeMap<OpId, u32>,
    hash: u64,
    sched_hash: u64,
    switches: u64,
    quiet: bool,
    pub log: Option<Vec<String>>,
    slots: BTreeMap<&'static str, Box<dyn Any>>,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            // (thread-locals may be gone already when a destructor panics)
            let in_sim = WORLD.try_with(|w| w.try_borrow().map(|w| w.is_some()).unwrap_or(true)).unwrap_or(false);
            if std::env::var_os("HBSIM_PANICS").is_some() {
                eprintln!("{info}\n{}", std::backtrace::Backtrace::force_capture());
            }
            if in_sim {
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                let loc = info.location().map(|l| format!(" at {}:{}", short(l.file()), l.line())).unwrap_or_default();
                let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
            } else {
                prev(info)
            }
        }));
    });
}
fn short(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or(p)
}
pub fn take_panic_msg() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no simulated world on this thread")))
}
thread_local! {
    /// Simulated time for the clock seam; None outside a run
    static CLOCK: std::cell::Cell<Option<Clocks>> = const { std::cell::Cell::new(None) };
}
/// What the clocks show, in microseconds: simulated time and how far they have jumped.
#[derive(Clone, Copy, Default)]
pub struct Clocks {
    time: u64,
    /// of the monotonic clock (the machine was suspended): never back
    suspended: u64,
    /// of the wall clock alone
    set: i64,
}
impl Clocks {
    pub fn monotonic(&self) -> u64 {
        self.time + self.suspended
    }
    pub fn wall(&self) -> i64 {
        self.monotonic() as i64 + self.set
    }
}
/// The clocks, if this thread is in a run.
pub fn clock() -> Option<Clocks> {
    CLOCK.try_with(|c| c.get()).ok().flatten()
}
/// Lets the clocks jump: odd numbers both (a suspended machine), even numbers the wall clock.
fn jump(kind: u32) {
    const S: i64 = 1_000_000;
    let mut c = CLOCK.get().unwrap_or_default();
    match kind {
        1 => c.suspended += 2 * S as u64,
        3 => c.suspended += 120 * S as u64,
        5 => c.suspended += 7_200 * S as u64,
        7 => c.suspended += 4_000_000 * S as u64,
        2 => c.set -= S,
        4 => c.set -= 3_600 * S,
        6 => c.set += 3_600 * S,
        _ => c.set -= 300_000_000 * S,
    }
    CLOCK.set(Some(c));
}
pub fn active() -> bool {
    WORLD.with(|w| w.try_borrow().map(|w| w.is_some()).unwrap_or(false))
}

/// Start a world on this thread. `replay` = decisions to follow instead of the seed.
pub fn start(seed: u64, cfg: SchedCfg, replay: Option<Trace>, keep_log: bool) {
    install_panic_hook();
    let w = World {
        rng: if replay.is_some() { None } else { Some(Rng::new(seed)) },
        trace: Trace::new(),
        replay,
        counters: BTreeMap::new(),
        cfg,
        now_us: 0,
        seq: 0,
        steps: 0,
        progress: 0,
        events: BTreeMap::new(),
        next_event: 0,
        tasks: BTreeMap::new(),
        next_task: 1,
        cur: None,
        cur_node: 0,
        cur_op: 0,
        last: None,
        streak: 0,
        stats: BTreeMap::new(),
        panics: vec![],
        kill: BTreeSet::new(),
        polls_in_step: 0,
        self_polled: false,
        moved: false,
        waited: false,
        spins: BTreeMap::new(),
        timers: BTreeMap::new(),
        hash: 0xcbf2_9ce4_8422_2325,
        sched_hash: 0xcbf2_9ce4_8422_2325,
        switches: 0,
        quiet: false,
        log: if keep_log { Some(vec![]) } else { None },
        slots: BTreeMap::new(),
    };
    WORLD.with(|c| {
        assert!(c.borrow().is_none(), "world already running");
        *c.borrow_mut() = Some(w)
    });
    CLOCK.set(Some(Clocks::default()));
}

/// Stop the world, dropping all tasks.
pub fn stop() -> Summary {
    loop {
        let t = with(|w| w.tasks.pop_first());
        match t {
            Some((_, mut t)) => drop_future(t.fut.take()),
            None => break,
        }
    }
    let slots = with(|w| std::mem::take(&mut w.slots));
    drop(slots);
    let w = WORLD.with(|c| c.borrow_mut().take()).unwrap();
    CLOCK.set(None);
    Summary {
        trace: w.trace,
        stats: w.stats,
        panics: w.panics,
        steps: w.steps,
        now_us: w.now_us,
        hash: w.hash,
        sched_hash: w.sched_hash,
        switches: w.switches,
        log: w.log.unwrap_or_default(),
    }
}

pub struct Summary {
    pub trace: Trace,
    pub stats: BTreeMap<&'static str, u64>,
    pub panics: Vec<PanicRec>,
    pub steps: u64,
    pub now_us: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub log: Vec<String>,
}

fn drop_future(f: Option<Pin<Box<dyn Future<Output = ()>>>>) {
    // destructors of the code under test must not take the simulator down
    let r = catch_unwind(AssertUnwindSafe(move || drop(f)));
    if r.is_err() {
        let msg = take_panic_msg();
        with(|w| {
            let seq = w.seq;
            w.panics.push(PanicRec { task: "drop", node: 0, op: 0, msg, seq })
        });
    }
}

fn fnv(h: u64, x: u64) -> u64 {
    let mut h = h;
    for b in x.to_le_bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl World {
    /// Draw decision number `counter(kind, op)`.
    pub fn draw(&mut self, kind: u8, op: OpId, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let c = self.counters.entry((kind, op)).or_insert(0);
        let idx = *c;
        *c += 1;
        let v = match (&self.replay, &mut self.rng) {
            (Some(t), _) => t.get(&(kind, op, idx)).copied().unwrap_or(0),
            (None, Some(r)) => gen(r),
            _ => 0,
        };
        if v != 0 {
            self.trace.insert((kind, op, idx), v);
        }
        v
    }
    fn begin_poll(&mut self, t: TaskId) -> Option<(Pin<Box<dyn Future<Output = ()>>>, Waker)> {
        let task = self.tasks.get_mut(&t)?;
        // a task that is blocked inside a nested block_on is being polled right now
        let fut = task.fut.take()?;
        let woken = task.wake.woken.swap(false, Ordering::SeqCst);
        self.self_polled = woken && !task.wake.by_other.swap(false, Ordering::SeqCst);
        self.moved = false;
        self.waited = false;
        if !self.self_polled {
            task.yields = 0;
        }
        task.wake.polling.store(true, Ordering::SeqCst);
        let waker = Waker::from(task.wake.clone());
        self.cur = Some(t);
        self.cur_node = task.node;
        self.cur_op = task.op;
        self.polls_in_step = 0;
        Some((fut, waker))
    }
    fn got_on(&mut self) {
        if let Some(t) = self.cur.and_then(|c| self.tasks.get_mut(&c)) {
            t.yields = 0;
        }
    }
    /// The code under test gives way to other tasks.
    pub fn gave_way(&mut self) {
        if let Some(t) = self.cur.and_then(|c| self.tasks.get_mut(&c)) {
            t.yields += 1;
            let most = self.spins.entry(t.op).or_insert(0);
            *most = (t.yields / 4).max(*most);
        }
    }
    pub fn note(&mut self, x: u64) {
        self.hash = fnv(self.hash, x);
    }
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn op(&self) -> OpId {
        self.cur_op
    }
    pub fn node(&self) -> NodeId {
        self.cur_node
    }
    pub fn seq(&self) -> u64 {
        self.seq
    }
    pub fn now(&self) -> u64 {
        self.now_us
    }
    pub fn bump(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    pub fn slot<T: Any + Default>(&mut self, k: &'static str) -> &mut T {
        self.slots.entry(k).or_insert_with(|| Box::<T>::default()).downcast_mut::<T>().unwrap()
    }
}

pub fn stat(k: &'static str) {
    with(|w| w.stat(k))
}
pub fn stat_add(k: &'static str, n: u64) {
    with(|w| *w.stats.entry(k).or_insert(0) += n)
}
/// Something observable came of the steps so far: an answer, an item of a stream, a block.
pub fn progress() {
    with(|w| {
        w.progress = w.steps;
        w.got_on();
    });
}

/// Append to the event log (and its hash). Never draws.
pub fn log(f: impl FnOnce() -> String) {
    with(|w| {
        w.seq += 1;
        let s = f();
        let mut h = w.hash;
        for b in s.as_bytes() {
            h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        w.hash = fnv(h, w.now_us);
        if let Some(l) = &mut w.log {
            l.push(format!("[{:>5} t={}us op={}] {}", w.seq, w.now_us, w.cur_op, s));
        }
    })
}
pub fn now_us() -> u64 {
    with(|w| w.now_us)
}
pub fn bump() -> u64 {
    with(|w| w.bump())
}
pub fn set_op(op: OpId) {
    with(|w| {
        w.cur_op = op;
        if let Some(c) = w.cur {
            if let Some(t) = w.tasks.get_mut(&c) {
                t.op = op;
            }
        }
    })
}
pub fn cur_op() -> OpId {
    with(|w| w.cur_op)
}
pub fn cur_node() -> NodeId {
    with(|w| w.cur_node)
}
/// No more pre-emption, delays stay small: used for the final verification phase.
pub fn set_quiet(q: bool) {
    with(|w| w.quiet = q)
}

pub fn spawn_on(node: NodeId, op: OpId, name: &'static str, daemon: bool, fut: impl Future<Output = ()> + 'static) -> TaskId {
    with(|w| {
        let id = w.next_task;
        w.next_task += 1;
        let prio = match w.cfg.policy {
            Policy::Pct(_) => match &mut w.rng {
                Some(r) => r.next() >> 1,
                None => 0,
            },
            _ => 0,
        };
        w.tasks.insert(
            id,
            Task { fut: Some(Box::pin(fut)), wake: Arc::new(TaskWake { woken: true.into(), by_other: true.into(), ..Default::default() }), node, op, name, prio, daemon, spins: 0, yields: 0 },
        );
        id
    })
}
/// Spawn in the current node, inheriting the current op.
pub fn spawn_here(name: &'static str, daemon: bool, fut: impl Future<Output = ()> + 'static) -> TaskId {
    let (n, o) = with(|w| (w.cur_node, w.cur_op));
    spawn_on(n, o, name, daemon, fut)
}
pub fn task_alive(id: TaskId) -> bool {
    with(|w| w.tasks.contains_key(&id))
}
pub fn abort(id: TaskId) {
    let t = with(|w| if w.cur == Some(id) { None } else { w.tasks.remove(&id) });
    if let Some(mut t) = t {
        drop_future(t.fut.take());
    }
}
/// Kill all tasks of a node as soon as the current poll returns.
pub fn kill_node(n: NodeId) {
    with(|w| {
        w.kill.insert(n);
    })
}
pub fn alive_tasks() -> Vec<(TaskId, &'static str, OpId, NodeId)> {
    with(|w| w.tasks.iter().filter(|(_, t)| !t.daemon).map(|(i, t)| (*i, t.name, t.op, t.node)).collect())
}

pub enum StepResult {
    Ran,
    /// no runnable task and no pending event
    Idle,
    Budget,
}

/// Run one step: one poll of one task, or one event.
pub fn step() -> StepResult {
    enum Act {
        Poll(TaskId, Pin<Box<dyn Future<Output = ()>>>, Waker),
        Fire(Arc<SleepState>),
        Idle,
        Budget,
        Skip,
    }
    let act = with(|w| {
        if w.steps - w.progress >= w.cfg.max_steps || w.steps >= w.cfg.max_steps * 12 {
            return Act::Budget;
        }
        // candidates: current task first, then others by id, then the earliest event
        let mut ready: Vec<TaskId> = vec![];
        for (id, t) in w.tasks.iter() {
            if t.fut.is_some() && t.wake.woken.load(Ordering::SeqCst) {
                ready.push(*id);
            }
        }
        let cpm = w.cfg.clock_pm;
        if cpm > 0 && !w.quiet {
            let v = w.draw(K_CLOCK, 0, |r| if r.pm(cpm) { 1 + r.below(8) as u32 } else { 0 });
            if v > 0 {
                jump(v);
                w.stat(if v % 2 == 1 { "clock_suspends" } else { "clock_sets" });
            }
        }
        let spm = w.cfg.spurious_pm;
        if spm > 0 && !w.quiet && ready.len() < w.tasks.len() {
            let n = (w.tasks.len() - ready.len()) as u64;
            let v = w.draw(K_SPUR, 0, |r| if r.pm(spm) { 1 + r.below(n) as u32 } else { 0 });
            if v > 0 {
                let idle: Vec<TaskId> = w.tasks.keys().copied().filter(|t| !ready.contains(t)).collect();
                if let Some(t) = idle.get(v as usize - 1) {
                    w.stat("spurious_polls");
                    let t = *t;
                    w.steps += 1;
                    return w.begin_poll(t).map(|(f, k)| Act::Poll(t, f, k)).unwrap_or(Act::Skip);
                }
            }
        }
        let has_ev = !w.events.is_empty();
        let last_ready = w.last.filter(|l| ready.contains(l));
        // fairness: a task that keeps waking itself may not starve the rest
        let starve = w.streak >= 12;
        let mut cand: Vec<Option<TaskId>> = vec![];
        if let Some(l) = last_ready {
            if !starve {
                cand.push(Some(l));
            }
        }
        for t in ready.iter() {
            if Some(*t) != last_ready {
                cand.push(Some(*t));
            }
        }
        if has_ev {
            if starve && w.streak % 3 == 0 {
                cand.insert(0, None);
            } else {
                cand.push(None);
            }
        }
        if starve {
            if let Some(l) = last_ready {
                cand.push(Some(l));
            }
        }
        if cand.is_empty() {
            return Act::Idle;
        }
        w.steps += 1;
        let n = cand.len() as u64;
        let choice = if n == 1 {
            0
        } else {
            let policy = w.cfg.policy;
            let quiet = w.quiet;
            let prios: Vec<u64> = match policy {
                Policy::Pct(_) => cand.iter().map(|c| c.map(|t| w.tasks[&t].prio).unwrap_or(u64::MAX >> 2)).collect(),
                _ => vec![],
            };
            let last_is_first = cand[0].is_some() && cand[0] == last_ready;
            let ev_pos = cand.iter().position(|c| c.is_none());
            let mut demote = false;
            let v = w.draw(K_SCHED, 0, |r| {
                if quiet {
                    return r.below(n) as u32;
                }
                match policy {
                    Policy::Uniform => r.below(n) as u32,
                    Policy::Sticky(p) => {
                        if last_is_first && r.pm(p) {
                            0
                        } else {
                            r.below(n) as u32
                        }
                    }
                    Policy::LazyIo(p) => {
                        if ev_pos.is_some() && n > 1 && r.pm(p) {
                            // pick among tasks only
                            let k = r.below(n - 1) as usize;
                            let k = if k >= ev_pos.unwrap() { k + 1 } else { k };
                            k as u32
                        } else {
                            r.below(n) as u32
                        }
                    }
                    Policy::Pct(d) => {
                        if starve {
                            return r.below(n) as u32;
                        }
                        demote = r.pm(d);
                        let mut best = 0;
                        for i in 1..prios.len() {
                            if prios[i] > prios[best] {
                                best = i;
                            }
                        }
                        best as u32
                    }
                }
            });
            let v = if (v as usize) < cand.len() { v as usize } else { 0 };
            if demote {
                if let Some(Some(t)) = cand.get(v) {
                    let p = w.rng.as_mut().map(|r| r.next() >> 8).unwrap_or(0);
                    w.tasks.get_mut(t).unwrap().prio = p;
                }
            }
            v
        };
        match cand[choice] {
            Some(t) => {
                if w.last == Some(t) {
                    w.streak += 1;
                } else {
                    w.switches += 1;
                    w.streak = 0;
                }
                w.last = Some(t);
                w.sched_hash = fnv(w.sched_hash, t as u64);
                match w.begin_poll(t) {
                    Some((f, k)) => Act::Poll(t, f, k),
                    None => Act::Skip,
                }
            }
            None => {
                let ((time, _), st) = w.events.pop_first().unwrap();
                if time > w.now_us {
                    w.now_us = time;
                    CLOCK.set(CLOCK.get().map(|c| Clocks { time, ..c }));
                }
                w.streak = 0;
                w.sched_hash = fnv(w.sched_hash, u64::MAX);
                Act::Fire(st)
            }
        }
    });
    match act {
        Act::Idle => return StepResult::Idle,
        Act::Budget => return StepResult::Budget,
        Act::Skip => return StepResult::Ran,
        Act::Fire(st) => {
            st.fired.store(true, Ordering::SeqCst);
            let wk = st.waker.lock().unwrap().take();
            if let Some(wk) = wk {
                wk.wake();
            }
        }
        Act::Poll(id, mut fut, waker) => {
            let mut cx = Context::from_waker(&waker);
            let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
            let done = match r {
                Ok(Poll::Pending) => false,
                Ok(Poll::Ready(())) => true,
                Err(_) => {
                    let msg = take_panic_msg();
                    with(|w| {
                        let (node, op, seq) = (w.cur_node, w.cur_op, w.seq);
                        let name = w.tasks.get(&id).map(|t| t.name).unwrap_or("?");
                        w.panics.push(PanicRec { task: name, node, op, msg, seq });
                    });
                    true
                }
            };
            let dead = with(|w| {
                w.cur = None;
                w.cur_op = 0;
                w.cur_node = 0;
                if done {
                    w.tasks.remove(&id);
                    Some(fut)
                } else if let Some(t) = w.tasks.get_mut(&id) {
                    t.fut = Some(fut);
                    t.wake.polling.store(false, Ordering::SeqCst);
                    if w.self_polled && w.waited && !w.moved {
                        t.spins += 1;
                        if !t.daemon {
                            let most = w.spins.entry(t.op).or_insert(0);
                            *most = t.spins.max(*most);
                        }
                    } else {
                        t.spins = 0;
                    }
                    None
                } else {
                    Some(fut)
                }
            });
            drop_future(dead);
        }
    }
    // crashed nodes: drop all their tasks, in id order
    let victims: Vec<Task> = with(|w| {
        if w.kill.is_empty() {
            return vec![];
        }
        let ids: Vec<TaskId> = w.tasks.iter().filter(|(_, t)| w.kill.contains(&t.node)).map(|(i, _)| *i).collect();
        ids.iter().map(|i| w.tasks.remove(i).unwrap()).collect()
    });
    for mut t in victims {
        drop_future(t.fut.take());
    }
    StepResult::Ran
}

/// Nested run of one future to completion, driving the world (for code that blocks).
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let out: Arc<Mutex<Option<F::Output>>> = Arc::new(Mutex::new(None));
    let o2 = out.clone();
    let saved = with(|w| (w.cur, w.cur_node, w.cur_op, w.polls_in_step));
    moved();
    let boxed: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move {
        let v = fut.await;
        *o2.lock().unwrap() = Some(v);
    });
    // Sound: the task is gone (finished or aborted) before this function returns.
    let boxed: Pin<Box<dyn Future<Output = ()> + 'static>> = unsafe { std::mem::transmute(boxed) };
    let id = spawn_here("block_on", false, boxed);
    let mut why = "task failed";
    loop {
        if !task_alive(id) {
            break;
        }
        match step() {
            StepResult::Ran => {}
            StepResult::Idle => {
                why = "deadlock";
                break;
            }
            StepResult::Budget => {
                why = "livelock: step budget exceeded";
                break;
            }
        }
    }
    abort(id);
    with(|w| {
        w.cur = saved.0;
        w.cur_node = saved.1;
        w.cur_op = saved.2;
        w.polls_in_step = saved.3;
        w.moved = true;
    });
    let v = out.lock().unwrap().take();
    v.unwrap_or_else(|| panic!("simrt: block_on: {why}"))
}

pub struct Sleep {
    st: Option<Arc<SleepState>>,
    us: u64,
    done: bool,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.done {
            return Poll::Ready(());
        }
        match &self.st {
            None => {
                let st = Arc::new(SleepState { fired: AtomicBool::new(false), waker: Mutex::new(Some(cx.waker().clone())) });
                let us = self.us;
                with(|w| {
                    let id = w.next_event;
                    w.next_event += 1;
                    w.events.insert((w.now_us + us, id), st.clone());
                });
                self.st = Some(st);
                moved();
                with(|w| w.got_on());
                Poll::Pending
            }
            Some(st) => {
                if st.fired.load(Ordering::SeqCst) {
                    self.done = true;
                    moved();
                    Poll::Ready(())
                } else {
                    waited();
                    *st.waker.lock().unwrap() = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
}
pub fn sleep_us(us: u64) -> Sleep {
    Sleep { st: None, us, done: false }
}

pub struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        moved();
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
pub fn yield_now() -> Yield {
    Yield(false)
}

/// The current poll got further.
pub fn moved() {
    let _ = WORLD.try_with(|w| w.try_borrow_mut().map(|mut w| w.as_mut().map(|w| w.moved = true)));
}
/// The current poll found that what it waits for is not ready yet.
pub fn waited() {
    let _ = WORLD.try_with(|w| w.try_borrow_mut().map(|mut w| w.as_mut().map(|w| w.waited = true)));
}
/// Waiting that [`moved`] and [`waited`] get to know of.
pub async fn waiting<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut first = true;
    std::future::poll_fn(move |cx| {
        let r = f.as_mut().poll(cx);
        if r.is_ready() || std::mem::take(&mut first) {
            moved()
        } else {
            waited()
        }
        r
    })
    .await
}

/// Never resolves (a crashed node's I/O).
pub async fn forever() {
    std::future::pending::<()>().await
}

/// Lock acquisition: the place where another thread could run.
pub async fn preempt_point() {
    if !active() {
        return;
    }
    let y = with(|w| {
        if w.cur.is_none() {
            return false;
        }
        w.polls_in_step += 1;
        w.moved = true;
        if w.polls_in_step > 400_000 {
            return true; // handled below
        }
        if w.quiet || w.cfg.preempt_pm == 0 {
            return false;
        }
        let op = w.cur_op;
        let pm = w.cfg.preempt_pm;
        let v = w.draw(K_PREEMPT, op, |r| r.pm(pm) as u32) != 0;
        if v {
            w.stat("preemptions");
        }
        v
    });
    if y {
        if with(|w| w.polls_in_step > 400_000) {
            panic!("simrt: livelock: more than 400000 lock acquisitions in one poll");
        }
        yield_now().await;
    }
}

/// A storage latency drawn for the current op. 0 = answers at once.
pub fn draw_delay() -> u64 {
    with(|w| {
        let op = w.cur_op;
        let (max, slow) = (w.cfg.max_delay_us, w.cfg.slow_pm);
        if max == 0 || w.quiet {
            return 0;
        }
        let v = w.draw(K_DELAY, op, |r| {
            if r.pm(slow) {
                (max as u64 * 20 + r.below(max as u64 * 30)) as u32
            } else if r.pm(400) {
                0
            } else {
                1 + r.below(max as u64) as u32
            }
        }) as u64;
        if v > max as u64 * 19 {
            w.stat("slow_io");
        } else if v > 0 {
            w.stat("delayed_io");
        }
        v
    })
}
pub async fn io_delay() {
    let d = draw_delay();
    if d > 0 {
        sleep_us(d).await
    }
}
