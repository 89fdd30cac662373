//! The description of one run: everything but the schedule and fault decisions.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Byte string written as text where printable, %XX otherwise.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct B(pub Vec<u8>);
impl B {
    pub fn show(b: &[u8]) -> String {
        let mut s = String::new();
        if b.len() > 64 {
            return format!("{}..({} bytes)", B::show(&b[..16]), b.len());
        }
        for c in b {
            if (0x21..0x7f).contains(c) && *c != b'%' && *c != b'*' {
                s.push(*c as char)
            } else {
                s.push_str(&format!("%{c:02x}"))
            }
        }
        s
    }
}
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "'{}'", B::show(&self.0))
    }
}
impl From<&[u8]> for B {
    fn from(b: &[u8]) -> Self {
        B(b.to_vec())
    }
}
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // long constant runs: *count*byte
        if self.0.len() > 64 && self.0[8..].iter().all(|c| *c == self.0[8]) {
            return s.serialize_str(&format!("{}*{}*{:02x}", B::show(&self.0[..8]), self.0.len() - 8, self.0[8]));
        }
        let mut o = String::new();
        for c in self.0.chunks(32) {
            o.push_str(&B::show(c));
        }
        s.serialize_str(&o)
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let mut parts = s.split('*');
        let head = parts.next().unwrap_or("");
        let mut out = vec![];
        let b = head.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).map_err(serde::de::Error::custom)?;
                out.push(u8::from_str_radix(h, 16).map_err(serde::de::Error::custom)?);
                i += 3;
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        if let (Some(n), Some(c)) = (parts.next(), parts.next()) {
            let n: usize = n.parse().map_err(serde::de::Error::custom)?;
            let c = u8::from_str_radix(c, 16).map_err(serde::de::Error::custom)?;
            out.extend(std::iter::repeat(c).take(n));
        }
        Ok(B(out))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pred {
    True,
    False,
    /// put only if there is no entry
    Absent,
    Present,
    /// the old entry's sequence number is even
    SeqEven,
    ValueIs(Option<B>),
    /// same entry as this client's last get of the key
    SameAsLastGet,
    /// the compare function panics
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bound {
    Open,
    /// infinite, given explicitly to the builder
    Inf,
    /// infinite and "exclusive", by default or given explicitly: excludes nothing
    OpenExc,
    InfExc,
    /// the wrong infinity: excludes everything
    Never,
    Inc(B),
    Exc(B),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Conf {
    pub min: Bound,
    pub max: Bound,
    pub rev: bool,
    /// built as a struct literal rather than with the builder
    pub literal: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Get,
    Put(Option<B>),
    Del,
    CasPut(Option<B>, Pred),
    CasDel(Pred),
    Version,
    Header(Option<(Option<B>, Option<B>)>),
    /// limit: items consumed before the stream is dropped; pause between items (µs);
    /// handoff: every item is awaited by another task (another waker);
    /// inner: so many of the next operations of the client run between the items, the stream open
    Traverse {
        conf: Conf,
        limit: Option<u32>,
        pause: u32,
        handoff: bool,
        #[serde(default)]
        inner: u32,
    },
    /// read, then swap the value for value+1 if the entry is unchanged; retried
    Incr,
    Sleep(u32),
    /// close and open the bee again (only in the final phase)
    Reopen,
    Height,
    Print,
    /// format the bee with {:?}
    Debug,
    /// connect two nodes; `init` is the initiator
    Connect { a: u32, b: u32, a_init: bool },
    Cut(u32),
    /// kill a node; it restarts
    Kill(u32),
    /// wait until all replicas have everything
    Converge,
}
impl Kind {
    pub fn is_write(&self) -> bool {
        matches!(self, Kind::Put(_) | Kind::Del | Kind::CasPut(..) | Kind::CasDel(_) | Kind::Incr | Kind::Header(_))
    }
    /// an operation on one key
    pub fn is_plain(&self) -> bool {
        matches!(self, Kind::Get | Kind::Put(_) | Kind::Del | Kind::CasPut(..) | Kind::CasDel(_) | Kind::Incr)
    }
    pub fn name(&self) -> &'static str {
        match self {
            Kind::Get => "get",
            Kind::Put(_) => "put",
            Kind::Del => "del",
            Kind::CasPut(..) => "put_cas",
            Kind::CasDel(_) => "del_cas",
            Kind::Version => "version",
            Kind::Header(_) => "create_header",
            Kind::Traverse { .. } => "traverse",
            Kind::Incr => "increment",
            Kind::Sleep(_) => "sleep",
            Kind::Reopen => "reopen",
            Kind::Height => "height",
            Kind::Print => "print",
            Kind::Debug => "debug",
            Kind::Connect { .. } => "connect",
            Kind::Cut(_) => "cut",
            Kind::Kill(_) => "kill",
            Kind::Converge => "converge",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub id: u32,
    /// 0: the bee; n: sub n-1
    #[serde(default, skip_serializing_if = "is0")]
    pub h: u8,
    #[serde(default, skip_serializing_if = "isempty")]
    pub key: B,
    pub kind: Kind,
    /// drop the future after so many polls
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancel: Option<u32>,
}
fn is0(x: &u8) -> bool {
    *x == 0
}
fn isempty(b: &B) -> bool {
    b.0.is_empty()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Client {
    pub node: u32,
    pub ops: Vec<Op>,
    /// abandoned (not resumed) when its node crashes
    #[serde(default)]
    pub once: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub policy: String,
    pub arg: u32,
    pub preempt: u32,
    pub max_delay: u32,
    pub slow: u32,
    pub spurious: u32,
    #[serde(default)]
    pub clock: u32,
    pub max_steps: u64,
}
impl Sched {
    pub fn cfg(&self) -> simrt::SchedCfg {
        simrt::SchedCfg {
            policy: match &self.policy[..] {
                "sticky" => simrt::Policy::Sticky(self.arg),
                "pct" => simrt::Policy::Pct(self.arg),
                "lazyio" => simrt::Policy::LazyIo(self.arg),
                _ => simrt::Policy::Uniform,
            },
            preempt_pm: self.preempt,
            max_delay_us: self.max_delay,
            slow_pm: self.slow,
            spurious_pm: self.spurious,
            clock_pm: self.clock,
            max_steps: self.max_steps,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct Faults {
    pub read_err: u32,
    pub app_before: u32,
    pub app_after: u32,
    pub app_ghost: u32,
    pub crash_before: u32,
    pub crash_after: u32,
    pub crash_read: u32,
    pub full: u32,
    pub full_len: u32,
    pub open_err: u32,
    pub max_crashes: u32,
    pub core_lock: bool,
}
impl Faults {
    pub fn cfg(&self) -> hypercore::sim::FaultCfg {
        hypercore::sim::FaultCfg {
            read_err: self.read_err,
            app_before: self.app_before,
            app_after: self.app_after,
            app_ghost: self.app_ghost,
            crash_before: self.crash_before,
            crash_after: self.crash_after,
            crash_read: self.crash_read,
            full: self.full,
            full_len: self.full_len,
            open_err: self.open_err,
            max_crashes: self.max_crashes,
            core_lock: self.core_lock,
        }
    }
}

pub const ALL_LEAVES: u32 = 64;

/// Damage done to a stored block before the run (C12).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Truncate(u32),
    Garbage(B),
    Flip(u32, u8),
    /// structured: the block stays well-formed
    NoNodes,
    DropLastNode,
    ChildOffset { node: u32, child: u32, offset: u64 },
    ChildSeq { node: u32, child: u32, seq: u64 },
    ChildSelf { node: u32, child: u32 },
    OddChildren { node: u32 },
    ExtraChild { node: u32 },
    DropChild { node: u32 },
    /// of one node, or with `ALL_LEAVES` of every leaf
    DropKeys { node: u32 },
    KeySeq { node: u32, key: u32, seq: u64 },
    /// refer to another node that exists
    Graft { node: u32, child: u32, seq: u64, offset: u64 },
    /// a node with its keys and children many times over
    Repeat { node: u32, times: u32 },
    /// replace the whole block by nothing (missing)
    Missing,
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub sched: Sched,
    pub faults: Faults,
    /// "disk", "ram" or "core": how the bee is opened
    pub open: String,
    /// "rust", "uniffi" or "c"
    pub api: String,
    /// the core may not be written
    #[serde(default)]
    pub readonly: bool,
    /// number of replicas
    #[serde(default)]
    pub replicas: u32,
    /// a tracing subscriber formats everything
    #[serde(default)]
    pub traced: bool,
    /// a second bee on the same core
    #[serde(default)]
    pub second: bool,
    /// so many writes of one key come before the preload
    #[serde(default)]
    pub age: u32,
    /// ... and then so many more that the log has this many blocks; none of these is stored
    #[serde(default)]
    pub age_to: u64,
    /// ... at this position of the preload
    #[serde(default)]
    pub age_at: u32,
    pub subs: Vec<(B, B)>,
    #[serde(default)]
    pub header: Option<(Option<B>, Option<B>)>,
    /// writes applied by the reference model before the run (None = delete)
    #[serde(with = "writes")]
    pub preload: Vec<(B, Option<Option<B>>)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub damage: Vec<(u64, Damage)>,
    pub clients: Vec<Client>,
    /// run one after another by one task once faults have stopped
    pub finale: Vec<(u32, Op)>,
}
impl Plan {
    pub fn ops(&self) -> usize {
        self.clients.iter().map(|c| c.ops.len()).sum()
    }
    pub fn full_key(&self, op: &Op) -> Vec<u8> {
        self.key_in(op.h, &op.key.0)
    }
    pub fn key_in(&self, h: u8, key: &[u8]) -> Vec<u8> {
        if h == 0 {
            return key.to_vec();
        }
        let (p, s) = &self.subs[h as usize - 1];
        [&p.0[..], &s.0[..], key].concat()
    }
}

/// `null` would stand for both a delete and a put without value
mod writes {
    use super::*;
    #[derive(Serialize, Deserialize)]
    enum W {
        Put(B, B),
        PutNone(B),
        Del(B),
    }
    pub fn serialize<S: Serializer>(v: &[(B, Option<Option<B>>)], s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(v.iter().map(|(k, e)| match e.clone() {
            Some(Some(x)) => W::Put(k.clone(), x),
            Some(None) => W::PutNone(k.clone()),
            None => W::Del(k.clone()),
        }))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<(B, Option<Option<B>>)>, D::Error> {
        Ok(Vec::<W>::deserialize(d)?
            .into_iter()
            .map(|w| match w {
                W::Put(k, x) => (k, Some(Some(x))),
                W::PutNone(k) => (k, Some(None)),
                W::Del(k) => (k, None),
            })
            .collect())
    }
}
