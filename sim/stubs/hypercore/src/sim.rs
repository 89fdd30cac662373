//! The simulated disks and the faults injected into them. Used by the harness.
use crate::AppendOutcome;
use simrt::{OpId, K_APPEND, K_GET, K_OPEN};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::task::Waker;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    None,
    ReadError,
    AppendBefore,
    AppendAfter,
    AppendGhost,
    CrashBefore,
    CrashAfter,
    CrashRead,
    DiskFull,
    OpenError,
    NotWritable,
    Missing,
}

/// A list in which one long stretch is not stored: all elements of it are alike.
#[derive(Debug, Default, Clone)]
pub struct Sparse<T> {
    v: Vec<T>,
    at: usize,
    n: usize,
    fill: T,
}
impl<T: Clone> Sparse<T> {
    /// Grow by a stretch of `n` elements like `fill`. At most once.
    pub fn stretch(&mut self, n: u64, fill: T) {
        assert!(self.n == 0);
        (self.at, self.n, self.fill) = (self.v.len(), n as usize, fill);
    }
    /// The stretch: position and length.
    pub fn gap(&self) -> (u64, u64) {
        (self.at as u64, self.n as u64)
    }
    pub fn len(&self) -> usize {
        self.v.len() + self.n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn place(&self, i: usize) -> Option<usize> {
        match i {
            _ if i < self.at || self.n == 0 => Some(i),
            _ if i - self.at < self.n => None,
            _ => Some(i - self.n),
        }
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        self.place(i).map_or(Some(&self.fill), |i| self.v.get(i))
    }
    /// None within the stretch, too.
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        self.place(i).and_then(|i| self.v.get_mut(i))
    }
    pub fn last(&self) -> Option<&T> {
        self.len().checked_sub(1).and_then(|i| self.get(i))
    }
    pub fn push(&mut self, t: T) {
        self.v.push(t)
    }
    pub fn clear(&mut self) {
        self.v.clear();
        self.n = 0;
    }
    pub fn resize(&mut self, n: usize, t: T) {
        assert!(self.n == 0);
        self.v.resize(n, t)
    }
    /// The stored elements.
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.v.iter()
    }
    /// The same stretch, and other elements.
    pub fn map<U: Default>(&self, f: impl FnMut(&T) -> U) -> Sparse<U> {
        Sparse { v: self.v.iter().map(f).collect(), at: self.at, n: self.n, fill: U::default() }
    }
}
impl<T: Clone> std::ops::Index<usize> for Sparse<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        self.get(i).expect("index in range")
    }
}
impl<T: Clone> std::ops::IndexMut<usize> for Sparse<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        self.get_mut(i).expect("index in range")
    }
}

#[derive(Debug, Default)]
pub struct Disk {
    pub path: String,
    pub blocks: Sparse<Option<Vec<u8>>>,
    pub writable: bool,
    pub exists: bool,
    /// block that failed to flush: part of the log after a reopen unless overwritten
    pub ghost: Option<(usize, Vec<u8>, OpId)>,
    pub full_left: u32,
    pub armed: bool,
    pub wakers: Vec<Waker>,
    pub opens: u32,
    pub wiped: bool,
}
impl Disk {
    pub fn len(&self) -> u64 {
        self.blocks.len() as u64
    }
    pub fn is_empty(&self) -> bool {
        self.blocks.is_empty()
    }
    pub fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake()
        }
    }
}

#[derive(Clone, Debug)]
pub struct AppendRec {
    pub path: String,
    pub op: OpId,
    pub index: u64,
    pub data: Vec<u8>,
    pub at: u64,
}

/// All rates in permille per storage call.
#[derive(Clone, Debug, Default)]
pub struct FaultCfg {
    pub read_err: u32,
    pub app_before: u32,
    pub app_after: u32,
    pub app_ghost: u32,
    pub crash_before: u32,
    pub crash_after: u32,
    pub crash_read: u32,
    pub full: u32,
    pub full_len: u32,
    pub open_err: u32,
    pub max_crashes: u32,
    pub core_lock: bool,
}

#[derive(Default)]
pub struct State {
    pub disks: BTreeMap<String, Arc<Mutex<Disk>>>,
    pub appends: Vec<AppendRec>,
    pub faults: BTreeMap<OpId, Vec<Fault>>,
    pub cfg: FaultCfg,
    pub armed: bool,
    pub crashes: u32,
    /// blocks each operation asked for, when `record_reads`
    pub record_reads: bool,
    pub reads: BTreeMap<OpId, std::collections::BTreeSet<u64>>,
    mem: u32,
}

thread_local! {
    static CORES: std::cell::RefCell<Vec<(String, std::sync::Weak<()>)>> = Default::default();
}
/// A core was opened; it is open until the token is dropped.
pub(crate) fn note_core(disk: &Arc<Mutex<Disk>>) -> Arc<()> {
    let open = Arc::new(());
    let path = disk.lock().unwrap().path.clone();
    CORES.with(|c| c.borrow_mut().push((path, Arc::downgrade(&open))));
    open
}
/// Number of cores that are open now.
pub fn open_cores() -> usize {
    CORES.with(|c| c.borrow().iter().filter(|(_, w)| w.strong_count() > 0).count())
}
/// Number of cores opened since the last call, and the disks of those still open.
pub fn take_cores() -> (usize, Vec<String>) {
    let all = CORES.with(|c| std::mem::take(&mut *c.borrow_mut()));
    (all.len(), all.iter().filter(|(_, w)| w.strong_count() > 0).map(|(p, _)| p.clone()).collect())
}

pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    simrt::with(|w| f(w.slot::<State>("hypercore")))
}
pub fn core_lock() -> bool {
    with(|s| s.cfg.core_lock)
}
pub fn set_armed(a: bool) {
    with(|s| s.armed = a)
}
pub fn disk(path: &str) -> Arc<Mutex<Disk>> {
    with(|s| {
        s.disks
            .entry(path.to_string())
            .or_insert_with(|| {
                Arc::new(Mutex::new(Disk { path: path.to_string(), writable: true, armed: true, ..Default::default() }))
            })
            .clone()
    })
}
pub fn len(path: &str) -> u64 {
    disk(path).lock().unwrap().len()
}
pub(crate) fn new_memory_disk() -> Arc<Mutex<Disk>> {
    let n = with(|s| {
        s.mem += 1;
        s.mem
    });
    disk(&format!("mem:{n}"))
}
pub(crate) fn open_disk(path: &str, overwrite: bool) -> Arc<Mutex<Disk>> {
    let d = disk(path);
    {
        let mut g = d.lock().unwrap();
        if overwrite && !g.blocks.is_empty() {
            g.wiped = true;
            g.blocks.clear();
        }
        g.exists = true;
        g.opens += 1;
    }
    simrt::log(|| format!("open {path}"));
    d
}
pub(crate) fn settle(d: &Arc<Mutex<Disk>>) {
    let mut g = d.lock().unwrap();
    g.full_left = 0;
    if let Some((at, data, op)) = g.ghost.take() {
        if at == g.blocks.len() {
            let path = g.path.clone();
            g.blocks.push(Some(data.clone()));
            drop(g);
            let at = at as u64;
            simrt::stat("ghost_blocks_reappeared");
            simrt::log(|| format!("ghost block {at} appears"));
            let seq = simrt::bump();
            with(|s| s.appends.push(AppendRec { path, op, index: at, data, at: seq }));
        }
    }
}
pub(crate) fn set_ghost(d: &Arc<Mutex<Disk>>, data: Vec<u8>) {
    let mut g = d.lock().unwrap();
    let at = g.blocks.len();
    g.ghost = Some((at, data, simrt::cur_op()));
}
pub(crate) fn apply(d: &Arc<Mutex<Disk>>, data: Vec<Vec<u8>>) -> AppendOutcome {
    let op = simrt::cur_op();
    let mut recs = vec![];
    let out = {
        let mut g = d.lock().unwrap();
        g.ghost = None;
        for b in data {
            let index = g.blocks.len() as u64;
            recs.push(AppendRec { path: g.path.clone(), op, index, data: b.clone(), at: 0 });
            g.blocks.push(Some(b));
        }
        g.wake();
        AppendOutcome { length: g.blocks.len() as u64, byte_length: g.blocks.iter().flatten().map(|b| b.len() as u64).sum() }
    };
    for mut r in recs {
        simrt::log(|| format!("append {} [{}] {} bytes", r.path, r.index, r.data.len()));
        r.at = simrt::bump();
        with(|s| s.appends.push(r));
    }
    out
}
pub fn note_fault(f: Fault) {
    let op = simrt::cur_op();
    with(|s| s.faults.entry(op).or_default().push(f));
}
pub(crate) fn note_read(i: u64) {
    let op = simrt::cur_op();
    with(|s| {
        if s.record_reads {
            s.reads.entry(op).or_default().insert(i);
        }
    })
}
pub fn note_missing(_i: u64) {
    simrt::stat("missing_block_hits");
    note_fault(Fault::Missing);
}
pub(crate) async fn crash() {
    let n = simrt::cur_node();
    simrt::log(|| format!("CRASH node {n}"));
    with(|s| s.crashes += 1);
    simrt::kill_node(n);
    simrt::forever().await
}
fn crash_ok(s: &State) -> bool {
    s.crashes < s.cfg.max_crashes
}

pub(crate) async fn draw_get(d: &Arc<Mutex<Disk>>) -> Fault {
    let darm = d.lock().unwrap().armed;
    let (armed, c, can) = with(|s| (s.armed && darm, s.cfg.clone(), crash_ok(s)));
    if !armed || (c.read_err == 0 && c.crash_read == 0) {
        return Fault::None;
    }
    let v = simrt::with(|w| {
        let op = w.op();
        w.draw(K_GET, op, |r| {
            if r.pm(c.read_err) {
                1
            } else if can && r.pm(c.crash_read) {
                2
            } else {
                0
            }
        })
    });
    match v {
        1 => {
            simrt::stat("fault_read_error");
            note_fault(Fault::ReadError);
            Fault::ReadError
        }
        2 if can => {
            simrt::stat("fault_crash_in_read");
            crash().await;
            Fault::None
        }
        _ => Fault::None,
    }
}
pub(crate) async fn draw_append(d: &Arc<Mutex<Disk>>) -> Fault {
    let darm = d.lock().unwrap().armed;
    let (armed, c, can) = with(|s| (s.armed && darm, s.cfg.clone(), crash_ok(s)));
    if !armed {
        return Fault::None;
    }
    {
        let mut g = d.lock().unwrap();
        if g.full_left > 0 {
            g.full_left -= 1;
            drop(g);
            simrt::stat("fault_disk_full");
            note_fault(Fault::DiskFull);
            return Fault::DiskFull;
        }
    }
    let total = c.app_before + c.app_after + c.app_ghost + c.crash_before + c.crash_after + c.full;
    if total == 0 {
        return Fault::None;
    }
    let v = simrt::with(|w| {
        let op = w.op();
        w.draw(K_APPEND, op, |r| {
            let mut x = r.below(1000) as u32;
            for (i, p) in [c.app_before, c.app_after, c.app_ghost, c.full, if can { c.crash_before } else { 0 }, if can { c.crash_after } else { 0 }]
                .into_iter()
                .enumerate()
            {
                if x < p {
                    return i as u32 + 1;
                }
                x -= p;
            }
            0
        })
    });
    let f = match v {
        1 => {
            simrt::stat("fault_append_error_before");
            Fault::AppendBefore
        }
        2 => {
            simrt::stat("fault_append_error_after");
            Fault::AppendAfter
        }
        3 => {
            simrt::stat("fault_append_error_ghost");
            Fault::AppendGhost
        }
        4 => {
            simrt::stat("fault_disk_full");
            d.lock().unwrap().full_left = c.full_len;
            Fault::DiskFull
        }
        5 if can => {
            simrt::stat("fault_crash_before_append");
            Fault::CrashBefore
        }
        6 if can => {
            simrt::stat("fault_crash_after_append");
            Fault::CrashAfter
        }
        _ => Fault::None,
    };
    if f != Fault::None {
        note_fault(f);
    }
    if f == Fault::CrashBefore {
        crash().await;
    }
    f
}
/// Is there no runtime to be had (no threads, no descriptors) this time?
pub fn draw_runtime() -> bool {
    let (armed, p) = with(|s| (s.armed, s.cfg.open_err));
    if !armed || p == 0 {
        return false;
    }
    let v = simrt::with(|w| {
        let op = w.op();
        w.draw(K_OPEN, op, |r| r.pm(p / 2) as u32)
    });
    if v != 0 {
        simrt::stat("fault_no_runtime");
        note_fault(Fault::OpenError);
    }
    v != 0
}
pub(crate) async fn draw_open() -> Fault {
    simrt::io_delay().await;
    let (armed, p) = with(|s| (s.armed, s.cfg.open_err));
    if !armed || p == 0 {
        return Fault::None;
    }
    let v = simrt::with(|w| {
        let op = w.op();
        w.draw(K_OPEN, op, |r| r.pm(p) as u32)
    });
    if v != 0 {
        simrt::stat("fault_open_error");
        note_fault(Fault::OpenError);
        Fault::OpenError
    } else {
        Fault::None
    }
}

/// Name of the simulated disk at a path; the inverse of `path_of`.
pub fn path_name(p: &std::path::Path) -> String {
    use std::os::unix::ffi::OsStrExt;
    match p.to_str() {
        Some(s) => s.to_string(),
        None => format!("nonutf8:{}", p.as_os_str().as_bytes().iter().map(|b| format!("{b:02x}")).collect::<String>()),
    }
}
pub fn path_of(name: &str) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    match name.strip_prefix("nonutf8:") {
        Some(h) => {
            let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            std::ffi::OsString::from_vec(b).into()
        }
        None => name.into(),
    }
}
