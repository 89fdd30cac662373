//! Executes one plan in one simulated world and records its history.
use crate::ffi;
use crate::model::{self, Bytes, Kv, Log, Val};
use crate::net;
use crate::oracle;
use crate::plan::*;
use futures_lite::{Stream, StreamExt};
use hypercore::sim as core;
use hyperbee::prefixed::{Prefixed, PrefixedConfig};
use hyperbee::traverse::{KeyDataResult, LimitValue, TraverseConfig, TraverseConfigBuilder};
use hyperbee::{Hyperbee, HyperbeeError, KeyValueData};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

pub const BOOT_OP: u32 = 900_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Pending,
    Got(Option<(u64, Val)>),
    Put(Option<u64>, Option<u64>),
    Del(Option<u64>),
    CasDel(Option<(bool, u64)>),
    Version(u64),
    Header(u64),
    Traversed,
    Number(u64),
    Text(String),
    Unit,
    Err(String, String),
    Cancelled,
    Crashed,
    Panicked,
}

#[derive(Clone, Debug)]
pub struct CasCall {
    pub old: Option<Kv>,
    pub new: Option<Kv>,
    pub ret: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Trav {
    /// log length at call and return of the creating call
    pub created: Option<(u64, u64)>,
    pub items: Vec<Result<Kv, String>>,
    pub ended: bool,
    pub runaway: bool,
    pub conf_err: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub op: u32,
    pub client: usize,
    pub node: u32,
    pub finale: bool,
    pub kind: Kind,
    pub h: u8,
    pub key: Bytes,
    pub inv_len: u64,
    pub ret_len: u64,
    pub inv_seq: u64,
    pub ret_seq: u64,
    pub out: Outcome,
    pub calls: Vec<CasCall>,
    pub trav: Trav,
    /// what a block appended by this operation must contain
    pub intent: Option<(Bytes, Option<Val>)>,
    /// data blocks this operation appended
    pub blocks: Vec<u64>,
    pub header: bool,
    pub attempts: u32,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    pub op: u32,
    pub msg: String,
}

pub enum Bee {
    /// the bee, its subs, and maybe another bee on the same core
    Rust(Hyperbee, Vec<Prefixed>, Option<(Hyperbee, Vec<Prefixed>, hypercore::replication::SharedCore)>),
    Uni(ffi::Uni),
    C(ffi::CBee),
}

pub struct Ctx {
    pub plan: Plan,
    pub recs: BTreeMap<u32, Rec>,
    pub bees: BTreeMap<u32, Rc<Bee>>,
    pub pos: Vec<usize>,
    pub done: Vec<bool>,
    pub task: Vec<Option<simrt::TaskId>>,
    pub links: BTreeMap<u32, (u32, u32, Arc<net::Link>)>,
    pub viol: Vec<Viol>,
    pub last_get: BTreeMap<(usize, Bytes), Option<u64>>,
    pub boots: u32,
    pub booting: BTreeSet<u32>,
    pub finale_done: bool,
    pub log: Log,
    pub ingested: usize,
    pub writer: String,
    pub max_height: u32,
    pub max_live: u64,
    pub restarts: u32,
    /// from this block on the model could not follow the log
    pub lost: u64,
}
pub type C = Rc<RefCell<Ctx>>;

thread_local! {
    static CALLS: RefCell<Vec<(u32, CasCall)>> = const { RefCell::new(vec![]) };
}

impl Ctx {
    pub fn path(&self, node: u32) -> String {
        if node <= 1 {
            self.writer.clone()
        } else {
            format!("r{node}")
        }
    }
    pub fn fail(&mut self, class: &'static str, op: u32, msg: String) {
        simrt::log(|| format!("VIOLATION {class}: {msg}"));
        if self.viol.len() < 200 {
            self.viol.push(Viol { class, op, msg });
        }
    }
}

pub fn kv(d: &KeyValueData) -> Kv {
    Kv { seq: d.seq, key: d.key.clone(), value: d.value.clone() }
}
pub fn err_kind(e: &HyperbeeError) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
fn oerr(e: HyperbeeError) -> Outcome {
    // Display must not panic either
    Outcome::Err(err_kind(&e), e.to_string())
}

/// Polls the inner future at most `n` times, then drops it.
struct CancelAfter<F> {
    f: Option<Pin<Box<F>>>,
    left: u32,
}
impl<F: Future> Future for CancelAfter<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            self.f = None;
            return Poll::Ready(None);
        }
        self.left -= 1;
        let r = self.f.as_mut().expect("polled after completion").as_mut().poll(cx);
        match r {
            Poll::Ready(v) => {
                self.f = None;
                Poll::Ready(Some(v))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

fn eval(p: &Pred, old: Option<&KeyValueData>, last: Option<Option<u64>>) -> bool {
    match p {
        Pred::True => true,
        Pred::False => false,
        Pred::Absent => old.is_none(),
        Pred::Present => old.is_some(),
        Pred::SeqEven => old.map(|o| o.seq % 2 == 0).unwrap_or(true),
        Pred::ValueIs(v) => old.map(|o| o.value == v.clone().map(|b| b.0)).unwrap_or(v.is_none()),
        Pred::Panic => std::panic::panic_any(ComparePanic),
        Pred::SameAsLastGet => match last {
            Some(s) => old.map(|o| o.seq) == s,
            None => old.is_none(),
        },
    }
}
/// Thrown by a compare function.
struct ComparePanic;
/// Catches the panic of a compare function, as a task boundary would.
struct Catch<F>(Option<Pin<Box<F>>>);
impl<F: Future> Future for Catch<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let f = self.0.as_mut().expect("polled after completion");
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => {
                self.0 = None;
                Poll::Ready(Some(v))
            }
            Err(e) if e.is::<ComparePanic>() => {
                self.0 = None;
                Poll::Ready(None)
            }
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

fn call(op: u32, old: Option<&KeyValueData>, new: Option<&KeyValueData>, ret: bool) -> bool {
    CALLS.with(|c| c.borrow_mut().push((op, CasCall { old: old.map(kv), new: new.map(kv), ret })));
    simrt::log(|| format!("compare {:?} {:?} -> {ret}", old.map(|o| o.seq), new.map(|o| o.seq)));
    ret
}

pub fn build_conf(c: &Conf) -> Result<TraverseConfig, String> {
    use hyperbee::traverse::LimitValue::*;
    // the infinite keys are only reachable through a default configuration
    let d = TraverseConfig::default();
    let finite = |k: &B| match std::str::from_utf8(&k.0).ok().and_then(|s| s.parse::<usize>().ok()) {
        Some(n) if n.to_string().as_bytes() == k.0 => LimitValue::from(n),
        _ => Finite(k.0.clone()),
    };
    let lim = |b: &Bound, inf: &LimitValue, other: &LimitValue| match b {
        Bound::Open | Bound::Inf => (inf.clone(), true),
        Bound::OpenExc | Bound::InfExc => (inf.clone(), false),
        Bound::Never => (other.clone(), true),
        Bound::Inc(k) => (finite(k), true),
        Bound::Exc(k) => (finite(k), false),
    };
    let (min_value, min_inclusive) = lim(&c.min, &d.min_value, &d.max_value);
    let (max_value, max_inclusive) = lim(&c.max, &d.max_value, &d.min_value);
    if c.literal {
        return Ok(TraverseConfig { min_value, min_inclusive, max_value, max_inclusive, reversed: c.rev });
    }
    let mut b = TraverseConfigBuilder::default();
    if !matches!(c.min, Bound::Open | Bound::OpenExc) {
        b.min_value(min_value);
    }
    if !matches!(c.max, Bound::Open | Bound::OpenExc) {
        b.max_value(max_value);
    }
    if !min_inclusive {
        b.min_inclusive(false);
    }
    if !max_inclusive {
        b.max_inclusive(false);
    }
    if c.rev {
        b.reversed(true);
    }
    b.build().map_err(|e| e.to_string())
}

type BoxStream = Pin<Box<dyn Stream<Item = KeyDataResult>>>;

async fn next_item(s: &mut Option<BoxStream>, handoff: bool) -> Option<KeyDataResult> {
    if !handoff {
        return s.as_mut().unwrap().next().await;
    }
    // another task awaits the item
    struct AbortOnDrop(usize);
    impl Drop for AbortOnDrop {
        fn drop(&mut self) {
            if simrt::active() {
                simrt::abort(self.0)
            }
        }
    }
    type Slot = (Option<(Option<KeyDataResult>, BoxStream)>, Option<std::task::Waker>, bool);
    struct Dead(Rc<RefCell<Slot>>);
    impl Drop for Dead {
        fn drop(&mut self) {
            let mut b = self.0.borrow_mut();
            b.2 = true;
            if let Some(w) = b.1.take() {
                w.wake()
            }
        }
    }
    let slot: Rc<RefCell<Slot>> = Rc::new(RefCell::new((None, None, false)));
    let mut st = s.take().unwrap();
    let dead = Dead(slot.clone());
    let id = simrt::spawn_here("next", false, async move {
        let it = st.next().await;
        dead.0.borrow_mut().0 = Some((it, st));
        drop(dead);
    });
    let _g = AbortOnDrop(id);
    let (it, st) = std::future::poll_fn(move |cx| {
        let mut b = slot.borrow_mut();
        if let Some(x) = b.0.take() {
            return Poll::Ready(x);
        }
        if b.2 {
            panic!("stream panicked");
        }
        b.1 = Some(cx.waker().clone());
        Poll::Pending
    })
    .await;
    *s = Some(st);
    it
}

async fn consume(ctx: &C, op: &Op, ci: usize, node: u32, st: BoxStream) {
    let Kind::Traverse { limit, pause, handoff, inner, .. } = op.kind else { unreachable!() };
    let mut st = Some(st);
    let cap = ctx.borrow().log.len() as usize * 2 + 64;
    let mut n = 0u32;
    // the first operation in between comes before or after the first item
    let mut inner = Some(inner).filter(|_| ci != usize::MAX).unwrap_or(0);
    loop {
        if inner > 0 && (n > 0 || op.id % 2 == 0) {
            inner -= 1;
            if let Some((o, _)) = next_op(ctx, ci) {
                simrt::stat("ops_within_a_traversal");
                let f: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(run_op(ctx, &o, ci, node, false));
                f.await;
                simrt::set_op(op.id);
            }
        }
        if limit == Some(n) {
            return;
        }
        let it = next_item(&mut st, handoff).await;
        let mut c = ctx.borrow_mut();
        let r = c.recs.get_mut(&op.id).unwrap();
        match it {
            None => {
                r.trav.ended = true;
                simrt::log(|| format!("traverse end after {n}"));
                return;
            }
            Some(Ok(d)) => {
                simrt::log(|| format!("item {:?} seq {}", B::show(&d.key), d.seq));
                simrt::progress();
                r.trav.items.push(Ok(kv(&d)))
            }
            Some(Err(e)) => {
                simrt::log(|| format!("error item {}", err_kind(&e)));
                let _ = e.to_string();
                r.trav.items.push(Err(err_kind(&e)))
            }
        }
        n += 1;
        if r.trav.items.len() > cap {
            r.trav.runaway = true;
            return;
        }
        drop(c);
        if pause > 0 {
            simrt::sleep_us(pause as u64).await;
        }
    }
}

enum Handle<'a> {
    Kept(&'a Hyperbee, &'a [Prefixed]),
    /// dropped, with its subs, as soon as the stream is there
    Gone(Hyperbee),
}
async fn traverse(ctx: &C, op: &Op, ci: usize, node: u32, on: Handle<'_>) -> Outcome {
    let Kind::Traverse { conf, .. } = &op.kind else { unreachable!() };
    let path = ctx.borrow().path(node);
    let cf = match build_conf(conf) {
        Ok(c) => c,
        Err(e) => {
            ctx.borrow_mut().recs.get_mut(&op.id).unwrap().trav.conf_err = Some(e);
            return Outcome::Traversed;
        }
    };
    let inv = core::len(&path);
    let (mut sub, mut gone) = (None, None);
    let (hb, s) = match &on {
        Handle::Kept(hb, subs) => (*hb, op.h.checked_sub(1).map(|i| &subs[i as usize])),
        Handle::Gone(hb) => {
            if op.h > 0 {
                sub = Some(make_sub(hb, &ctx.borrow().plan.subs[op.h as usize - 1]));
            }
            (hb, sub.as_ref())
        }
    };
    let st: Result<BoxStream, HyperbeeError> = match s {
        None => hb.traverse(cf).await.map(|s| Box::pin(s) as BoxStream),
        Some(s) => s.traverse(&cf).await.map(|s| Box::pin(s) as BoxStream),
    };
    if let Handle::Gone(hb) = on {
        simrt::stat("orphaned_traversals");
        gone = Some(hb);
    }
    drop((sub, gone));
    let ret = core::len(&path);
    ctx.borrow_mut().recs.get_mut(&op.id).unwrap().trav.created = Some((inv, ret));
    match st {
        Err(e) => oerr(e),
        Ok(st) => {
            consume(ctx, op, ci, node, st).await;
            Outcome::Traversed
        }
    }
}

macro_rules! kvops {
    ($t:expr, $ctx:expr, $op:expr, $ci:expr) => {{
        let op: &Op = $op;
        let key = &op.key.0[..];
        match &op.kind {
            Kind::Get => match $t.get(key).await {
                Ok(v) => {
                    let mut c = $ctx.borrow_mut();
                    let fk = c.plan.full_key(op);
                    c.last_get.insert(($ci, fk), v.as_ref().map(|x| x.0));
                    Outcome::Got(v)
                }
                Err(e) => oerr(e),
            },
            Kind::Put(v) => match $t.put(key, v.as_ref().map(|b| &b.0[..])).await {
                Ok((o, n)) => Outcome::Put(o, Some(n)),
                Err(e) => oerr(e),
            },
            Kind::Del => match $t.del(key).await {
                Ok(o) => Outcome::Del(o),
                Err(e) => oerr(e),
            },
            Kind::CasPut(v, p) => {
                let last = {
                    let c = $ctx.borrow();
                    c.last_get.get(&($ci, c.plan.full_key(op))).cloned()
                };
                let (id, p) = (op.id, p.clone());
                match $t
                    .put_compare_and_swap(key, v.as_ref().map(|b| &b.0[..]), move |o, n| {
                        call(id, o, Some(n), eval(&p, o, last))
                    })
                    .await
                {
                    Ok((o, n)) => Outcome::Put(o, n),
                    Err(e) => oerr(e),
                }
            }
            Kind::CasDel(p) => {
                let last = {
                    let c = $ctx.borrow();
                    c.last_get.get(&($ci, c.plan.full_key(op))).cloned()
                };
                let (id, p) = (op.id, p.clone());
                match $t.del_compare_and_swap(key, move |o| call(id, Some(o), None, eval(&p, Some(o), last))).await {
                    Ok(o) => Outcome::CasDel(o),
                    Err(e) => oerr(e),
                }
            }
            Kind::Incr => {
                let mut n = 0;
                loop {
                    n += 1;
                    let cur = match $t.get(key).await {
                        Ok(c) => c,
                        Err(e) => break oerr(e),
                    };
                    let val: u64 = cur
                        .as_ref()
                        .and_then(|c| c.1.as_ref())
                        .and_then(|v| std::str::from_utf8(v).ok())
                        .and_then(|s| s.parse().ok())
                        .unwrap_or(0);
                    let new = (val + 1).to_string().into_bytes();
                    {
                        let mut c = $ctx.borrow_mut();
                        let fk = c.plan.full_key(op);
                        let r = c.recs.get_mut(&op.id).unwrap();
                        r.intent = Some((fk, Some(Some(new.clone()))));
                        r.attempts = n;
                    }
                    let want = cur.as_ref().map(|c| c.0);
                    let id = op.id;
                    match $t
                        .put_compare_and_swap(key, Some(&new), move |o, n| {
                            call(id, o, Some(n), o.map(|o| o.seq) == want)
                        })
                        .await
                    {
                        Ok((o, Some(s))) => break Outcome::Put(o, Some(s)),
                        Ok((o, None)) => {
                            if n >= 40 {
                                break Outcome::Put(o, None);
                            }
                        }
                        Err(e) => break oerr(e),
                    }
                }
            }
            _ => unreachable!(),
        }
    }};
}

async fn exec(ctx: C, bee: Option<Rc<Bee>>, op: Op, ci: usize, node: u32) -> Outcome {
    match &op.kind {
        Kind::Sleep(us) => {
            simrt::sleep_us(*us as u64).await;
            return Outcome::Unit;
        }
        Kind::Connect { a, b, a_init } => {
            connect(&ctx, op.id, *a, *b, *a_init).await;
            return Outcome::Unit;
        }
        Kind::Cut(id) => {
            let l = ctx.borrow_mut().links.remove(id);
            if let Some((_, _, l)) = l {
                simrt::stat("fault_link_cut");
                simrt::log(|| format!("cut link {id}"));
                l.cut();
            }
            return Outcome::Unit;
        }
        Kind::Kill(n) => {
            if ctx.borrow().bees.contains_key(n) {
                simrt::stat("fault_node_kill");
                simrt::log(|| format!("KILL node {n}"));
                simrt::kill_node(*n);
            }
            return Outcome::Unit;
        }
        Kind::Converge => {
            let n = ctx.borrow().plan.replicas;
            for _ in 0..4000 {
                let len = core::len(&ctx.borrow().writer);
                let ok = (0..n).all(|i| {
                    let d = core::disk(&format!("r{}", i + 2));
                    let d = d.lock().unwrap();
                    d.len() == len && d.blocks.iter().all(|b| b.is_some())
                });
                if ok {
                    return Outcome::Unit;
                }
                simrt::sleep_us(500).await;
            }
            ctx.borrow_mut().fail("converge", op.id, "a replica did not receive the writer's log within 2 s of a stable connection".into());
            return Outcome::Unit;
        }
        _ => {}
    }
    let bee = bee.expect("no bee");
    match &*bee {
        Bee::Rust(hb, subs, other) => {
            // reads may use a second bee on the same core at any time, writes when nothing overlaps
            let alone = ctx.borrow().plan.clients.len() == 1;
            let (hb, subs) = match other {
                Some(o) if op.id % 3 == 1 && (alone || !op.kind.is_write()) => (&o.0, &o.1),
                _ => (hb, subs),
            };
            // ... or one that is gone before its traversal or sub is used
            if let Some((_, _, core)) = other.as_ref().filter(|_| op.id % 3 == 2 && (alone || !op.kind.is_write())) {
                let gone = match Hyperbee::from_hypercore(core.clone()) {
                    Ok(b) => b,
                    Err(e) => return oerr(e),
                };
                match &op.kind {
                    Kind::Traverse { .. } => return traverse(&ctx, &op, ci, node, Handle::Gone(gone)).await,
                    k if k.is_plain() && op.h > 0 => {
                        let s = make_sub(&gone, &ctx.borrow().plan.subs[op.h as usize - 1]);
                        drop(gone);
                        simrt::stat("orphaned_subs");
                        return kvops!(s, ctx, &op, ci);
                    }
                    _ => {}
                }
            }
            match &op.kind {
            Kind::Version => Outcome::Version(hb.version().await),
            Kind::Header(m) => {
                let md = m.as_ref().map(|(a, b)| hyperbee::Metadata {
                    content_feed: a.clone().map(|b| b.0),
                    user_data: b.clone().map(|b| b.0),
                });
                match hb.create_header(md).await {
                    Ok(o) => Outcome::Header(o.length),
                    Err(e) => oerr(e),
                }
            }
            Kind::Height => match hb.height().await {
                Ok(h) => Outcome::Number(h as u64),
                Err(e) => oerr(e),
            },
            Kind::Debug => {
                let _ = (format!("{hb:?}").len(), format!("{subs:?}").len());
                Outcome::Unit
            }
            Kind::Print => match hb.print().await {
                Ok(h) => Outcome::Text(h),
                Err(e) => oerr(e),
            },
            Kind::Traverse { .. } => traverse(&ctx, &op, ci, node, Handle::Kept(hb, subs)).await,
            _ if op.h == 0 => kvops!(hb, ctx, &op, ci),
            _ => {
                let fresh;
                let mut s = &subs[op.h as usize - 1];
                if ci % 3 == 1 {
                    fresh = make_sub(hb, &ctx.borrow().plan.subs[op.h as usize - 1]);
                    s = &fresh;
                }
                kvops!(s, ctx, &op, ci)
            }
            }
        }
        Bee::Uni(u) => u.exec(&op).await,
        Bee::C(c) => c.exec(&op).await,
    }
}

async fn connect(ctx: &C, id: u32, a: u32, b: u32, a_init: bool) {
    let (ea, eb, link) = net::pair(id);
    let (ba, bb) = {
        let c = ctx.borrow();
        (c.bees.get(&a).cloned(), c.bees.get(&b).cloned())
    };
    let (Some(ba), Some(bb)) = (ba, bb) else {
        simrt::log(|| format!("connect {a}-{b}: node down"));
        return;
    };
    simrt::log(|| format!("connect {a}-{b} link {id}"));
    simrt::stat("links");
    ctx.borrow_mut().links.insert(id, (a, b, link));
    for (bee, end, init, n) in [(ba, ea, a_init, a), (bb, eb, !a_init, b)] {
        let ctx2 = ctx.clone();
        simrt::spawn_on(n, id, "add_stream", false, async move {
            if let Bee::Rust(hb, ..) = &*bee {
                if let Err(e) = hb.add_stream(end, init).await {
                    ctx2.borrow_mut().fail("replica", id, format!("add_stream failed: {e}"));
                }
            }
        });
    }
}

fn start_rec(ctx: &C, op: &Op, ci: usize, node: u32, finale: bool) {
    simrt::set_op(op.id);
    let mut c = ctx.borrow_mut();
    let path = c.path(node);
    let key = if c.plan.api == "rust" || op.h as usize <= c.plan.subs.len() { c.plan.full_key(op) } else { vec![] };
    simrt::log(|| format!("client {ci} node {node} calls #{} {:?} h{} {}", op.id, op.kind, op.h, B::show(&op.key.0)));
    let effect: Option<Option<Val>> = match &op.kind {
        Kind::Put(v) | Kind::CasPut(v, _) => Some(Some(v.clone().map(|b| b.0))),
        Kind::Del | Kind::CasDel(_) => Some(None),
        _ => None,
    };
    let rec = Rec {
        op: op.id,
        client: ci,
        node,
        finale,
        kind: op.kind.clone(),
        h: op.h,
        intent: effect.map(|e| (key.clone(), e)),
        key,
        inv_len: core::len(&path),
        ret_len: u64::MAX,
        inv_seq: simrt::bump(),
        ret_seq: u64::MAX,
        out: Outcome::Pending,
        calls: vec![],
        trav: Trav::default(),
        blocks: vec![],
        header: false,
        attempts: 0,
    };
    c.recs.insert(op.id, rec);
}
fn end_rec(ctx: &C, op: u32, out: Outcome) {
    let mut c = ctx.borrow_mut();
    let Some(node) = c.recs.get(&op).map(|r| r.node) else { return };
    let path = c.path(node);
    let len = core::len(&path);
    simrt::log(|| format!("#{op} -> {}", short(&out)));
    simrt::progress();
    let calls: Vec<CasCall> = CALLS.with(|c| c.borrow().iter().filter(|(o, _)| *o == op).map(|(_, x)| x.clone()).collect());
    let r = c.recs.get_mut(&op).unwrap();
    r.ret_len = len;
    r.ret_seq = simrt::bump();
    r.out = out;
    r.calls = calls;
}
pub fn calls_of(op: u32) -> Vec<CasCall> {
    CALLS.with(|c| c.borrow().iter().filter(|(o, _)| *o == op).map(|(_, x)| x.clone()).collect())
}
fn short(o: &Outcome) -> String {
    match o {
        Outcome::Got(Some((s, v))) => format!("Got seq {s} {:?}", v.clone().map(B)),
        o => format!("{o:?}"),
    }
}

async fn run_op(ctx: &C, op: &Op, ci: usize, node: u32, finale: bool) {
    let bee = ctx.borrow().bees.get(&node).cloned();
    start_rec(ctx, op, ci, node, finale);
    if bee.is_none() && !matches!(op.kind, Kind::Sleep(_) | Kind::Connect { .. } | Kind::Cut(_) | Kind::Kill(_) | Kind::Converge) {
        end_rec(ctx, op.id, Outcome::Crashed);
        return;
    }
    let fut = exec(ctx.clone(), bee, op.clone(), ci, node);
    let out = match op.cancel {
        Some(n) => match (CancelAfter { f: Some(Box::pin(fut)), left: n }).await {
            Some(o) => o,
            None => {
                simrt::stat("cancelled_ops");
                // what ran within a traversal is gone with it
                let within: Vec<u32> = ctx.borrow().recs.values().filter(|r| r.client == ci && !finale && r.op != op.id && r.inv_seq > ctx.borrow().recs[&op.id].inv_seq && r.out == Outcome::Pending).map(|r| r.op).collect();
                for o in within.into_iter().rev() {
                    end_rec(ctx, o, Outcome::Cancelled);
                }
                Outcome::Cancelled
            }
        },
        None if matches!(op.kind, Kind::CasPut(_, Pred::Panic) | Kind::CasDel(Pred::Panic)) => match Catch(Some(Box::pin(fut))).await {
            Some(o) => o,
            None => {
                simrt::stat("fault_compare_panics");
                simrt::log(|| "the compare function panicked".into());
                Outcome::Cancelled
            }
        },
        None => fut.await,
    };
    end_rec(ctx, op.id, out);
}

/// The position moves on before the call: a crashed call is not repeated.
fn next_op(ctx: &C, ci: usize) -> Option<(Op, u32)> {
    let mut c = ctx.borrow_mut();
    let cl = &c.plan.clients[ci];
    let next = (cl.ops.get(c.pos[ci])?.clone(), cl.node);
    c.pos[ci] += 1;
    Some(next)
}
async fn client(ctx: C, ci: usize) {
    while let Some((op, node)) = next_op(&ctx, ci) {
        run_op(&ctx, &op, ci, node, false).await;
    }
    ctx.borrow_mut().done[ci] = true;
}

fn make_sub(hb: &Hyperbee, (p, s): &(B, B)) -> Prefixed {
    let conf = if s.0 == b"\0" { PrefixedConfig::default() } else { PrefixedConfig { seperator: s.0.clone() } };
    hb.sub(&p.0, conf)
}

async fn open_bee(ctx: &C, node: u32) -> Result<Bee, HyperbeeError> {
    let (plan, path) = {
        let c = ctx.borrow();
        (c.plan.clone(), c.path(node))
    };
    match &plan.api[..] {
        "uniffi" => return ffi::Uni::open(&plan, &path).await.map(Bee::Uni).map_err(|_| HyperbeeError::NoRootError),
        "c" => return ffi::CBee::open(&plan, &path).map(Bee::C).ok_or(HyperbeeError::NoRootError),
        _ => {}
    }
    let mut other = None;
    let hb = if node > 1 {
        core::disk(&path).lock().unwrap().writable = false;
        Hyperbee::from_hypercore(hypercore::Hypercore::on_disk(core::disk(&path)))?
    } else {
        match &plan.open[..] {
            "ram" => Hyperbee::from_ram().await?,
            "core" => {
                let c = hypercore::replication::SharedCore::from_hypercore(hypercore::Hypercore::on_disk(core::disk(&path)));
                if plan.second {
                    other = Some((Hyperbee::from_hypercore(c.clone())?, c.clone()));
                }
                Hyperbee::from_hypercore(c)?
            }
            _ => Hyperbee::from_storage_dir(core::path_of(&path)).await?,
        }
    };
    let subs = |hb: &Hyperbee| plan.subs.iter().map(|s| make_sub(hb, s)).collect::<Vec<_>>();
    let other = other.map(|(o, c)| {
        let s = subs(&o);
        (o, s, c)
    });
    let s = subs(&hb);
    Ok(Bee::Rust(hb, s, other))
}

async fn boot(ctx: C, node: u32, delay: u64) {
    simrt::sleep_us(delay).await;
    for _ in 0..60 {
        let op = {
            let mut c = ctx.borrow_mut();
            c.boots += 1;
            BOOT_OP + c.boots
        };
        simrt::set_op(op);
        let path = ctx.borrow().path(node);
        let before = core::len(&path);
        let ghost = core::disk(&path).lock().unwrap().ghost.is_some();
        match open_bee(&ctx, node).await {
            Ok(b) => {
                let after = core::len(&path);
                if core::disk(&path).lock().unwrap().wiped || after < before || (after > before && !ghost && node <= 1) {
                    ctx.borrow_mut().fail("open", op, format!("opening changed the store: {before} blocks before, {after} after"));
                }
                let mut c = ctx.borrow_mut();
                c.bees.insert(node, Rc::new(b));
                c.booting.remove(&node);
                simrt::log(|| format!("node {node} up, {after} blocks"));
                let n = c.plan.clients.len();
                drop(c);
                for ci in 0..n {
                    let (is, done) = {
                        let c = ctx.borrow();
                        (c.plan.clients[ci].node == node, c.done[ci])
                    };
                    if is && !done {
                        let t = simrt::spawn_on(node, 0, "client", false, client(ctx.clone(), ci));
                        ctx.borrow_mut().task[ci] = Some(t);
                    }
                }
                return;
            }
            Err(e) => {
                let excused = core::with(|s| s.faults.get(&op).map(|f| !f.is_empty()).unwrap_or(false));
                if !excused {
                    let mut c = ctx.borrow_mut();
                    c.fail("open", op, format!("opening failed without a fault: {e}"));
                    c.booting.remove(&node);
                    return;
                }
                simrt::sleep_us(100).await;
            }
        }
    }
    let mut c = ctx.borrow_mut();
    c.booting.remove(&node);
}

async fn finale(ctx: C) {
    let ops = ctx.borrow().plan.finale.clone();
    for (node, op) in ops {
        simrt::set_op(op.id);
        if matches!(op.kind, Kind::Reopen) {
            let open = ctx.borrow().plan.open.clone();
            if node <= 1 && open == "ram" {
                continue;
            }
            simrt::log(|| format!("reopen node {node}"));
            ctx.borrow_mut().bees.remove(&node);
            let path = ctx.borrow().path(node);
            let (before, ghost) = {
                let d = core::disk(&path);
                let d = d.lock().unwrap();
                (d.len(), d.ghost.is_some())
            };
            match open_bee(&ctx, node).await {
                Ok(b) => {
                    let after = core::len(&path);
                    if core::disk(&path).lock().unwrap().wiped || after < before || (after > before && !ghost) {
                        ctx.borrow_mut().fail("open", op.id, format!("reopening changed the store: {before} blocks before, {after} after"));
                    }
                    ctx.borrow_mut().bees.insert(node, Rc::new(b));
                }
                Err(e) => ctx.borrow_mut().fail("open", op.id, format!("reopening failed: {e}")),
            }
            continue;
        }
        run_op(&ctx, &op, usize::MAX, node, true).await;
    }
    ctx.borrow_mut().finale_done = true;
}

pub struct RunOut {
    pub viol: Vec<Viol>,
    pub sum: simrt::Summary,
    pub recs: BTreeMap<u32, Rec>,
    pub log_len: u64,
    pub log_hash: u64,
    pub max_height: u32,
    pub max_live: u64,
    pub ops_done: u64,
    pub crashes: u32,
}

pub fn preload(plan: &Plan) -> Log {
    let mut log = Log::default();
    if let Some(h) = &plan.header {
        log.push_header(model::encode_header(Some(&(h.0.clone().map(|b| b.0), h.1.clone().map(|b| b.0)))));
    }
    for j in 0..=plan.preload.len() {
        if j == plan.preload.len().min(plan.age_at as usize) {
            for i in 0..plan.age {
                log.apply(b"age", if i % 7 == 6 { None } else { Some(Some(vec![b'a' + (i % 26) as u8])) });
            }
            if plan.age_to > log.len() + 1 {
                // the rest of the writes of this key, of which the last one counts
                log.apply(b"age", Some(None));
                log.stretch(plan.age_to - log.len());
                log.apply(b"age", Some(Some(b"old".to_vec())));
            }
        }
        if let Some((k, e)) = plan.preload.get(j) {
            log.apply(&k.0, e.clone().map(|v| v.map(|b| b.0)));
        }
    }
    log
}

/// Every run gets its own thread: thread-locals (the hash keys of the standard library among
/// them) start the same in every run.
pub fn run(plan: &Plan, replay: Option<simrt::Trace>, keep_log: bool) -> RunOut {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || crate::trace::with(plan.traced, || run_here(plan, replay, keep_log)))
            .expect("thread")
            .join()
            .expect("run")
    })
}
/// A panic outside the tasks must not hide what the run has found so far.
fn guard(ctx: &C, class: &'static str, f: impl FnOnce()) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
        let m = simrt::take_panic_msg();
        ctx.borrow_mut().fail(class, 0, m);
    }
}
fn run_here(plan: &Plan, replay: Option<simrt::Trace>, keep_log: bool) -> RunOut {
    CALLS.with(|c| c.borrow_mut().clear());
    crate::alloc::misuse();
    ffi::reset();
    core::take_cores();
    simrt::start(plan.seed, plan.sched.cfg(), replay, keep_log);
    let log = preload(plan);
    let writer = match (&plan.open[..], &plan.api[..], plan.seed % 16) {
        ("ram", ..) => "mem:1",
        ("disk", "rust" | "c", 0) => "nonutf8:772fff2e62",
        ("disk", _, 1) => "dir \u{e9}/b c%20",
        ("disk", _, 2) => " w \t",
        ("disk", _, 3) => ".%2e/\u{1F41D}/W.d",
        _ => "w",
    }
    .to_string();
    core::with(|s| {
        s.cfg = plan.faults.cfg();
        s.record_reads = plan.prop == "C21";
        s.armed = true;
    });
    let mut raw = log.raw.map(|b| Some(b.clone()));
    for (i, d) in &plan.damage {
        oracle::damage(&log, &mut raw, *i, d);
    }
    if plan.open != "ram" {
        let d = core::disk(&writer);
        let mut d = d.lock().unwrap();
        d.blocks = raw;
        d.writable = !plan.readonly;
        d.exists = true;
    }
    for i in 0..plan.replicas {
        let d = core::disk(&format!("r{}", i + 2));
        let mut d = d.lock().unwrap();
        d.writable = false;
        d.armed = true;
    }
    let nc = plan.clients.len();
    let ctx: C = Rc::new(RefCell::new(Ctx {
        plan: plan.clone(),
        recs: BTreeMap::new(),
        bees: BTreeMap::new(),
        pos: vec![0; nc],
        done: vec![false; nc],
        task: vec![None; nc],
        links: BTreeMap::new(),
        viol: vec![],
        last_get: BTreeMap::new(),
        boots: 0,
        booting: BTreeSet::new(),
        finale_done: false,
        log,
        ingested: 0,
        writer,
        max_height: 0,
        max_live: 0,
        restarts: 0,
        lost: u64::MAX,
    }));
    let nodes: Vec<u32> = (1..=1 + plan.replicas).collect();
    for n in &nodes {
        ctx.borrow_mut().booting.insert(*n);
        simrt::spawn_on(*n, 0, "boot", false, boot(ctx.clone(), *n, 0));
    }
    for ci in 0..nc {
        if plan.clients[ci].node == 0 {
            let t = simrt::spawn_on(0, 0, "client", false, client(ctx.clone(), ci));
            ctx.borrow_mut().task[ci] = Some(t);
        }
    }
    let mut in_finale = false;
    let mut panics_seen = 0usize;
    loop {
        let r = simrt::step();
        guard(&ctx, "harness", || oracle::ingest(&ctx));
        // panics: the task is gone
        let news: Vec<simrt::PanicRec> = simrt::with(|w| w.panics[panics_seen..].to_vec());
        for p in news {
            panics_seen += 1;
            let op = p.op;
            if p.msg.contains("livelock") {
                ctx.borrow_mut().fail("livelock", op, format!("#{op}: {}", p.msg));
            } else {
                ctx.borrow_mut().fail("panic", op, format!("task {} in operation #{op}: {}", p.task, p.msg));
            }
            let pend = ctx.borrow().recs.get(&op).map(|r| r.out == Outcome::Pending).unwrap_or(false);
            if pend && p.task == "client" {
                end_rec(&ctx, op, Outcome::Panicked);
            }
            let mut c = ctx.borrow_mut();
            if p.task == "boot" {
                c.booting.remove(&p.node);
            }
            for ci in 0..nc {
                if let Some(t) = c.task[ci] {
                    if !simrt::task_alive(t) && !c.done[ci] && !simrt::with(|w| w.kill.contains(&c.plan.clients[ci].node)) {
                        c.done[ci] = true;
                    }
                }
            }
            if in_finale && p.task == "finale" {
                c.finale_done = true;
            }
        }
        // crashes
        let killed: Vec<u32> = simrt::with(|w| std::mem::take(&mut w.kill).into_iter().collect());
        for n in killed {
            let (bee, pend): (Option<Rc<Bee>>, Vec<u32>) = {
                let mut c = ctx.borrow_mut();
                c.restarts += 1;
                let pend = c.recs.values().filter(|r| r.node == n && r.out == Outcome::Pending && !r.finale).map(|r| r.op).collect();
                for ci in 0..nc {
                    if c.plan.clients[ci].node == n && c.plan.clients[ci].once {
                        c.done[ci] = true;
                    }
                }
                (c.bees.remove(&n), pend)
            };
            drop(bee);
            for op in pend {
                end_rec(&ctx, op, Outcome::Crashed);
            }
            let links: Vec<Arc<net::Link>> = {
                let mut c = ctx.borrow_mut();
                let ids: Vec<u32> = c.links.iter().filter(|(_, l)| l.0 == n || l.1 == n).map(|(i, _)| *i).collect();
                ids.iter().map(|i| c.links.remove(i).unwrap().2).collect()
            };
            for l in links {
                l.cut();
            }
            ctx.borrow_mut().booting.insert(n);
            simrt::stat("restarts");
            simrt::spawn_on(n, 0, "boot", false, boot(ctx.clone(), n, 200));
        }
        let (all_done, fin) = {
            let c = ctx.borrow();
            (c.done.iter().all(|d| *d) && c.booting.is_empty(), c.finale_done)
        };
        match r {
            simrt::StepResult::Ran => {}
            simrt::StepResult::Idle => {
                let c0 = ctx.borrow();
                let stuck: Vec<u32> = c0.recs.values().filter(|r| r.out == Outcome::Pending).map(|r| r.op).collect();
                let gone = !all_done || in_finale;
                drop(c0);
                if gone && !(in_finale && fin) {
                    for op in &stuck {
                        let k = ctx.borrow().recs[op].kind.name();
                        ctx.borrow_mut().fail("deadlock", *op, format!("#{op} ({k}) never completes: nothing left to run"));
                    }
                    if stuck.is_empty() {
                        ctx.borrow_mut().fail("harness", 0, "idle without a pending operation".into());
                    }
                    break;
                }
            }
            simrt::StepResult::Budget => {
                let stuck: Vec<u32> = ctx.borrow().recs.values().filter(|r| r.out == Outcome::Pending).map(|r| r.op).collect();
                let op = stuck.first().copied().unwrap_or(0);
                ctx.borrow_mut().fail("livelock", op, format!("step budget exhausted, pending operations {stuck:?}"));
                break;
            }
        }
        if !in_finale && all_done {
            if plan.finale.is_empty() {
                break;
            }
            in_finale = true;
            core::set_armed(false);
            // the disk has room again
            for n in &nodes {
                let p = ctx.borrow().path(*n);
                core::disk(&p).lock().unwrap().full_left = 0;
            }
            simrt::set_quiet(true);
            simrt::log(|| "faults stop".into());
            simrt::spawn_on(0, 0, "finale", false, finale(ctx.clone()));
        }
        if in_finale && fin {
            break;
        }
    }
    guard(&ctx, "harness", || oracle::ingest(&ctx));
    guard(&ctx, "harness", || oracle::check(&ctx));
    let bees = std::mem::take(&mut ctx.borrow_mut().bees);
    let crashes = core::with(|s| s.crashes);
    let closing = plan.api == "c" && !bees.is_empty() && plan.seed % 3 != 0;
    if closing {
        let mut r = simrt::Rng::new(plan.seed ^ 0xc105e);
        let mut keys: Vec<Vec<u8>> = plan.preload.iter().map(|(k, _)| k.0.clone()).collect();
        keys.push(b"none".to_vec());
        let keys: Vec<Vec<u8>> = (0..1 + r.below(5)).map(|_| keys[r.below(keys.len() as u64) as usize].clone()).collect();
        let steps = r.below(16);
        guard(&ctx, "panic", || {
            if let Some(Bee::C(c)) = bees.values().next().map(|b| &**b) {
                ffi::start_gets(c, &keys);
            }
            for _ in 0..steps {
                simrt::step();
            }
        });
    }
    let called = ffi::callbacks();
    // the bee is closed after its runtime, at once or later
    let later = plan.seed % 2 == 0;
    let mut bees = Some(bees);
    guard(&ctx, "panic", || match bees.as_ref().and_then(|b| b.values().next()).map(|b| &**b) {
        Some(Bee::C(c)) if closing && later => c.close_runtime(),
        _ => drop(bees.take()),
    });
    if closing {
        // nothing may happen in a closed runtime
        guard(&ctx, "panic", || {
            let mut n = 0;
            while n < 2000 && matches!(simrt::step(), simrt::StepResult::Ran) {
                n += 1;
            }
            drop(bees.take());
        });
        let now = ffi::callbacks();
        if now != called {
            ctx.borrow_mut().fail("callback", 0, format!("{} callbacks were called after their runtime was closed", now - called));
        }
    }
    if plan.api == "c" {
        for (n, k) in ffi::repeated() {
            ctx.borrow_mut().fail("callback", 0, format!("the callback of get {n} was called {k} times"));
        }
    }
    for m in ffi::finish().into_iter().chain(crate::alloc::misuse()) {
        ctx.borrow_mut().fail("memory", 0, m);
    }
    let stuck = ctx.borrow().recs.values().any(|r| r.out == Outcome::Pending);
    let mut late = 0;
    if !stuck {
        // background work may go on for a while, but not for ever
        while core::open_cores() > 0 && late < 5000 && matches!(simrt::step(), simrt::StepResult::Ran) {
            late += 1;
        }
        late = if late > 0 { core::open_cores() } else { 0 };
    }
    let mut sum = simrt::stop();
    // everything that used a bee is gone now: closed, finished, dropped or cancelled
    let (cores, open) = core::take_cores();
    *sum.stats.entry("cores_opened").or_default() += cores as u64;
    if let Some(p) = open.first() {
        let n = open.len();
        let msg = format!("{n} of {cores} openings of a core are never released, first on {p}");
        ctx.borrow_mut().viol.push(Viol { class: "release", op: 0, msg });
    } else if late > 0 {
        let msg = format!("background work keeps {late} of {cores} openings of a core open after everything was dropped");
        ctx.borrow_mut().viol.push(Viol { class: "release", op: 0, msg });
    }
    let c = ctx.borrow();
    let mut lh = 0u64;
    for b in c.log.raw.iter() {
        for x in b {
            lh = (lh ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    RunOut {
        viol: c.viol.clone(),
        ops_done: c.recs.values().filter(|r| !matches!(r.out, Outcome::Pending)).count() as u64,
        recs: c.recs.clone(),
        log_len: c.log.len(),
        log_hash: lh,
        max_height: c.max_height,
        max_live: c.max_live,
        crashes,
        sum,
    }
}
