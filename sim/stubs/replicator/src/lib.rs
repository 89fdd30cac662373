//! Simulated `replicator`: ships the log of a writable core to read-only cores over byte streams.
//! One side of a stream must be the initiator and the other the responder.
use futures_io::{AsyncRead, AsyncWrite};
use hypercore::replication::{CoreInfo, CoreMethods, CoreMethodsError, SharedCore};
use hypercore::sim::Disk;
use hypercore::{AppendOutcome, Info};
use simrt::K_NET;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum ReplicatorError {
    #[error("{0}")]
    Other(String),
    #[error("There was an error in the opening the other core")]
    CoreMethods(#[from] CoreMethodsError),
}

#[derive(Clone, Debug)]
pub struct ReplicatingCore {
    core: SharedCore,
    streams: Arc<Mutex<usize>>,
}
impl From<SharedCore> for ReplicatingCore {
    fn from(core: SharedCore) -> Self {
        Self { core, streams: Arc::new(Mutex::new(0)) }
    }
}
impl From<hypercore::Hypercore> for ReplicatingCore {
    fn from(h: hypercore::Hypercore) -> Self {
        SharedCore::from(h).into()
    }
}
impl CoreInfo for ReplicatingCore {
    async fn info(&self) -> Info {
        self.core.info().await
    }
}
impl CoreMethods for ReplicatingCore {
    async fn has(&self, index: u64) -> bool {
        self.core.has(index).await
    }
    async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
        self.core.get(index).await
    }
    async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
        self.core.append(data).await
    }
    fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
        self.core.append_batch(batch)
    }
}

impl ReplicatingCore {
    pub async fn add_stream<S: AsyncRead + AsyncWrite + Send + Sync + Unpin + 'static>(&self, stream: S, is_initiator: bool) {
        simrt::io_delay().await;
        *self.streams.lock().unwrap() += 1;
        let node = simrt::cur_node();
        let pump = Pump {
            s: stream,
            disk: self.core.sim_disk(),
            initiator: is_initiator,
            hello: false,
            outb: VecDeque::new(),
            inb: vec![],
            sent_len: None,
            peer_len: 0,
            requested: BTreeSet::new(),
            wanted: BTreeMap::new(),
            started: false,
        };
        simrt::spawn_on(node, 0, "pump", true, pump);
    }
}

const HELLO: u8 = 0;
const HAVE: u8 = 1;
const REQ: u8 = 2;
const BLOCK: u8 = 3;

struct Pump<S> {
    s: S,
    disk: Arc<Mutex<Disk>>,
    initiator: bool,
    hello: bool,
    started: bool,
    outb: VecDeque<u8>,
    inb: Vec<u8>,
    sent_len: Option<u64>,
    peer_len: u64,
    requested: BTreeSet<u64>,
    wanted: BTreeMap<u64, ()>,
}
impl<S> Pump<S> {
    fn frame(&mut self, ty: u8, a: u64, data: &[u8]) {
        self.outb.push_back(ty);
        self.outb.extend(a.to_le_bytes());
        self.outb.extend((data.len() as u32).to_le_bytes());
        self.outb.extend(data);
    }
    /// false = protocol failure
    fn take_frames(&mut self) -> bool {
        loop {
            if self.inb.len() < 13 {
                return true;
            }
            let n = u32::from_le_bytes(self.inb[9..13].try_into().unwrap()) as usize;
            if self.inb.len() < 13 + n {
                return true;
            }
            let rest = self.inb.split_off(13 + n);
            let f = std::mem::replace(&mut self.inb, rest);
            let a = u64::from_le_bytes(f[1..9].try_into().unwrap());
            let data = &f[13..];
            match f[0] {
                HELLO => {
                    // the handshake only works between an initiator and a responder
                    if (a == 1) == self.initiator {
                        simrt::stat("handshake_role_clash");
                        return false;
                    }
                    self.hello = true;
                    simrt::stat("handshakes");
                }
                HAVE => {
                    self.peer_len = self.peer_len.max(a);
                    let mut d = self.disk.lock().unwrap();
                    if !d.writable && d.len() < a {
                        d.blocks.resize(a as usize, None);
                        let p = d.path.clone();
                        d.wake();
                        drop(d);
                        simrt::log(|| format!("{p} learns length {a}"));
                    }
                }
                REQ => {
                    self.wanted.insert(a, ());
                }
                BLOCK => {
                    let mut d = self.disk.lock().unwrap();
                    if !d.writable && (a as usize) < d.blocks.len() {
                        if d.blocks[a as usize].is_none() {
                            d.blocks[a as usize] = Some(data.to_vec());
                            let p = d.path.clone();
                            d.wake();
                            drop(d);
                            simrt::stat("blocks_replicated");
                            simrt::log(|| format!("{p} receives block {a}"));
                        }
                    }
                    self.requested.remove(&a);
                }
                _ => return false,
            }
        }
    }
}
impl<S: AsyncRead + AsyncWrite + Unpin> Future for Pump<S> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        if !me.started {
            me.started = true;
            let i = me.initiator as u64;
            me.frame(HELLO, i, &[]);
        }
        let mut buf = [0u8; 4096];
        loop {
            // incoming
            let mut progress = false;
            match Pin::new(&mut me.s).poll_read(cx, &mut buf) {
                Poll::Ready(Ok(0)) | Poll::Ready(Err(_)) => return Poll::Ready(()),
                Poll::Ready(Ok(n)) => {
                    me.inb.extend_from_slice(&buf[..n]);
                    progress = true;
                    if !me.take_frames() {
                        return Poll::Ready(());
                    }
                }
                Poll::Pending => {}
            }
            if me.hello {
                let (len, ready, missing) = {
                    let d = me.disk.lock().unwrap();
                    let ready: Vec<(u64, Vec<u8>)> = me
                        .wanted
                        .keys()
                        .filter_map(|i| d.blocks.get(*i as usize).cloned().flatten().map(|b| (*i, b)))
                        .collect();
                    let missing: Vec<u64> = if d.writable {
                        vec![]
                    } else {
                        (0..d.len().min(me.peer_len))
                            .filter(|i| d.blocks[*i as usize].is_none() && !me.requested.contains(i))
                            .collect()
                    };
                    (d.len(), ready, missing)
                };
                if me.sent_len != Some(len) {
                    me.sent_len = Some(len);
                    me.frame(HAVE, len, &[]);
                }
                for (i, b) in ready {
                    me.wanted.remove(&i);
                    me.frame(BLOCK, i, &b);
                }
                let mut missing = missing;
                while me.requested.len() < 4 && !missing.is_empty() {
                    let n = missing.len() as u64;
                    let k = simrt::with(|w| {
                        let node = w.node();
                        w.draw(K_NET, node, |r| r.below(n) as u32)
                    }) as usize;
                    let i = missing.remove(k.min(missing.len() - 1));
                    me.requested.insert(i);
                    me.frame(REQ, i, &[]);
                }
            }
            // outgoing
            while !me.outb.is_empty() {
                let chunk: Vec<u8> = me.outb.iter().take(1024).copied().collect();
                match Pin::new(&mut me.s).poll_write(cx, &chunk) {
                    Poll::Ready(Ok(n)) if n > 0 => {
                        me.outb.drain(..n);
                        progress = true;
                    }
                    Poll::Ready(_) => return Poll::Ready(()),
                    Poll::Pending => break,
                }
            }
            if !progress {
                break;
            }
        }
        me.disk.lock().unwrap().wakers.push(cx.waker().clone());
        Poll::Pending
    }
}
