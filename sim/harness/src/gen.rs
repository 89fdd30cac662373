//! Generates the plan of a run from its seed.
use crate::plan::*;
use simrt::Rng;
use std::collections::BTreeSet;

pub struct G {
    r: Rng,
    id: u32,
    pub keys: Vec<B>,
    /// subs in use: 0..=nsubs may be picked as handle
    nsubs: usize,
    ctr: u64,
    /// keys that a tree with full nodes waits for
    next: Vec<B>,
}

const BYTES: [u8; 8] = [0, 1, b'!', b'a', b'b', 0x7f, 0xfe, 0xff];

impl G {
    fn one_in(&mut self, n: u64) -> bool {
        self.r.below(n) == 0
    }
    fn pm(&mut self, p: u32) -> bool {
        self.r.pm(p)
    }
    fn rng(&mut self, lo: u64, hi: u64) -> u64 {
        self.r.range(lo, hi)
    }
    fn universe(&mut self, n: usize) {
        let mut set = BTreeSet::new();
        let style = match self.r.below(60) {
            x @ 0..=55 => x % 7,
            56..=58 => 7,
            _ if n <= 40 => 8,
            _ => 7,
        };
        // long keys that differ only at the end
        let long = match style {
            7 => *self.r.pick(&[60usize, 120, 127, 130, 255, 300, 1000]),
            _ => *self.r.pick(&[16_300usize, 33_000, 65_530, 70_000]),
        };
        let base = self.r.below(1000);
        let plen = self.r.below(40) as usize;
        let mut guard = 0;
        while set.len() < n && guard < n * 20 + 50 {
            guard += 1;
            let i = set.len() as u64;
            let k: Vec<u8> = match style {
                0 => i.to_string().into_bytes(),
                1 => format!("{:04}", base + i * 7).into_bytes(),
                2 => {
                    // short strings over awkward bytes, the empty key among them
                    let l = self.r.below(1 + (n as f64).log(4.0).ceil() as u64 + 1);
                    (0..l).map(|_| *self.r.pick(&BYTES)).collect()
                }
                3 => {
                    let mut k = vec![b'k'; plen];
                    k.extend((base + i).to_be_bytes()[6..].iter());
                    k
                }
                4 => vec![(i * 5 % 256) as u8],
                5 => {
                    // each key a prefix of the next ones
                    let l = self.r.below(n as u64 + 1) as usize;
                    vec![*self.r.pick(&[b'a', 0xff, 0]); l]
                }
                7 | 8 => {
                    let mut k = vec![b'L'; long + self.r.below(3) as usize];
                    k.extend((base + i).to_be_bytes()[6..].iter());
                    k
                }
                _ => {
                    let l = 1 + self.r.below(3);
                    (0..l).map(|_| self.r.below(256) as u8).collect()
                }
            };
            set.insert(k);
        }
        self.keys = set.into_iter().map(B).collect();
        if self.keys.is_empty() {
            self.keys.push(B(b"a".to_vec()));
        }
    }
    fn key(&mut self) -> B {
        self.r.pick(&self.keys).clone()
    }
    fn value(&mut self) -> Option<B> {
        self.ctr += 1;
        let c = self.ctr;
        match self.r.below(100) {
            0..=5 => None,
            6..=11 => Some(B(vec![])),
            12..=20 => Some(B(vec![0xff, 0, *self.r.pick(&BYTES)])),
            21..=24 => {
                let n = 128 + self.r.below(300) as usize;
                let mut v = format!("v{c}------").into_bytes();
                v.truncate(8);
                v.resize(n, b'x');
                Some(B(v))
            }
            25 if self.one_in(4) => {
                let n = *self.r.pick(&[16_380usize, 16_380, 16_380, 65_530, 300_000]) + self.r.below(10) as usize;
                let mut v = format!("v{c}------").into_bytes();
                v.truncate(8);
                v.resize(n, b'y');
                Some(B(v))
            }
            26..=40 => Some(B(b"same".to_vec())),
            _ => Some(B(format!("v{c}").into_bytes())),
        }
    }
    fn op(&mut self, key: B, kind: Kind) -> Op {
        self.id += 1;
        Op { id: self.id, h: 0, key, kind, cancel: None }
    }
    fn handle(&mut self) -> u8 {
        if self.nsubs == 0 || self.pm(300) {
            0
        } else {
            1 + self.r.below(self.nsubs as u64) as u8
        }
    }
    fn pred(&mut self) -> Pred {
        match self.r.below(8) {
            0 => Pred::True,
            1 => Pred::False,
            2 => Pred::Absent,
            3 => Pred::Present,
            4 => Pred::SeqEven,
            5 => {
                let v = if self.one_in(2) { Some(B(b"same".to_vec())) } else { None };
                Pred::ValueIs(v)
            }
            _ => Pred::SameAsLastGet,
        }
    }
    fn bound_key(&mut self) -> B {
        let mut k = self.key().0;
        match self.r.below(8) {
            0 => k.push(0),
            1 => {
                k.pop();
            }
            2 => k.push(0xff),
            3 => {
                if let Some(l) = k.last_mut() {
                    *l = l.wrapping_add(1)
                }
            }
            4 => k = vec![*self.r.pick(&BYTES)],
            _ => {}
        }
        B(k)
    }
    fn bound(&mut self) -> Bound {
        match self.r.below(80) {
            0..=19 => Bound::Open,
            20..=27 => Bound::Inf,
            28..=29 => Bound::OpenExc,
            30 => Bound::InfExc,
            31 => Bound::Never,
            32..=55 => Bound::Inc(self.bound_key()),
            _ => Bound::Exc(self.bound_key()),
        }
    }
    pub fn conf(&mut self) -> Conf {
        let rev = self.pm(400);
        if self.pm(250) {
            return Conf { min: Bound::Open, max: Bound::Open, rev, literal: self.pm(100) };
        }
        let literal = self.pm(350);
        for _ in 0..20 {
            let c = Conf { min: self.bound(), max: self.bound(), rev, literal };
            if literal || possible(&c) || self.one_in(10) {
                return c;
            }
        }
        Conf { min: Bound::Open, max: Bound::Open, rev, literal }
    }
    fn traverse(&mut self) -> Kind {
        let conf = self.conf();
        let limit = if self.pm(250) { Some(self.r.below(12) as u32) } else { None };
        let pause = *self.r.pick(&[0, 0, 0, 20, 200, 1500]);
        let handoff = self.pm(250);
        let inner = if self.pm(350) { self.rng(1, 5) as u32 } else { 0 };
        Kind::Traverse { conf, limit, pause, handoff, inner }
    }
    fn full_traverse(&mut self, rev: bool) -> Kind {
        Kind::Traverse { conf: Conf { min: Bound::Open, max: Bound::Open, rev, literal: false }, limit: None, pause: 0, handoff: false, inner: 0 }
    }
    /// w: weights of get, put, del, cas put, cas del, incr, traverse, version, header, sleep, height, print, debug
    fn mixed(&mut self, w: &[u32; 13]) -> Op {
        let total: u32 = w.iter().sum();
        let mut x = self.r.below(total as u64) as u32;
        let mut i = 0;
        while x >= w[i] {
            x -= w[i];
            i += 1;
        }
        let h = if i < 7 { self.handle() } else { 0 };
        let key = self.key();
        let (key, kind) = match i {
            0 => (key, Kind::Get),
            1 => (key, Kind::Put(self.value())),
            2 => (key, Kind::Del),
            3 => (key, Kind::CasPut(self.value(), self.pred())),
            4 => (key, Kind::CasDel(self.pred())),
            5 => (B(b"counter".to_vec()), Kind::Incr),
            6 => (B::default(), self.traverse()),
            7 => (B::default(), Kind::Version),
            8 => (B::default(), self.header()),
            9 => (B::default(), Kind::Sleep(self.r.below(3000) as u32)),
            10 => (B::default(), Kind::Height),
            11 => (B::default(), Kind::Print),
            _ => (B::default(), Kind::Debug),
        };
        let mut o = self.op(key, kind);
        o.h = h;
        o
    }
    fn header(&mut self) -> Kind {
        Kind::Header(self.meta())
    }
    fn meta(&mut self) -> Option<(Option<B>, Option<B>)> {
        if self.one_in(2) {
            None
        } else {
            let a = match self.r.below(6) {
                0..=2 => None,
                3 => Some(B(vec![])),
                _ => Some(B((0..32).map(|i| 250u8.wrapping_add(i)).collect())),
            };
            let b = match self.r.below(8) {
                0..=3 => None,
                4 => Some(B(vec![])),
                5 => Some(B(vec![0x80; 300])),
                _ => Some(B(b"user".to_vec())),
            };
            Some((a, b))
        }
    }
    fn preload(&mut self, n: usize, dels: u32) -> Vec<(B, Option<Option<B>>)> {
        let mut out: Vec<(B, Option<Option<B>>)> = vec![];
        let style = self.r.below(4);
        let nk = self.keys.len();
        for i in 0..n {
            let k = match style {
                0 => self.keys[i % nk].clone(),
                1 => self.keys[nk - 1 - i % nk].clone(),
                _ => self.key(),
            };
            let p = self.handle() as usize;
            let _ = p;
            if self.pm(dels) {
                out.push((k, None));
            } else {
                let v = self.value();
                let v = v.map(|b| if b.0.len() > 400 { B(b"big".to_vec()) } else { b });
                out.push((k, Some(v)));
            }
        }
        out
    }
    fn size(&mut self) -> usize {
        match self.r.below(100) {
            0..=14 => 0,
            15..=19 => 1,
            20..=29 => self.rng(2, 9) as usize,
            30..=49 => self.rng(5, 20) as usize,
            50..=84 => self.rng(20, 90) as usize,
            _ => self.rng(90, 260) as usize,
        }
    }
    /// universe and preload together
    fn world(&mut self, p: &mut Plan, n: usize, dels: u32) {
        let nk = match self.r.below(4) {
            0 => n.max(3),
            1 => (n / 2).max(3),
            2 => n + n / 2 + 4,
            _ => n.max(12),
        };
        let spine = match &p.prop[..] {
            "C05" | "C06" => 40,
            "C01" | "C02" | "C03" | "C07" | "C08" | "C10" => 300,
            "C19" => 80,
            _ => 0,
        };
        if spine > 0 && n > 0 && p.open != "ram" && self.one_in(spine) {
            self.spine(p);
            return;
        }
        self.universe(nk);
        p.preload = self.preload(n, dels);
        // a long history: large sequence numbers
        if p.open != "ram" && self.one_in(300) {
            p.age = *self.r.pick(&[120, 250, 1_000, 2_040, 4_080, 4_080, 8_180, 16_360, 32_750, 65_520]);
            p.age_at = self.r.below(p.preload.len() as u64 + 1) as u32;
            if p.prop == "C11" || p.prop == "C14" {
                // all of it has to be replicated
                p.age = p.age.min(250);
            }
        }
        // an even longer one
        if p.open != "ram" && p.age == 0 && !["C11", "C12", "C14"].contains(&&p.prop[..]) && self.one_in(100) {
            let near = *self.r.pick(&[1u64 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 32, 1 << 33, 1 << 53, 1 << 62]);
            p.age_at = self.r.below(p.preload.len() as u64 + 1) as u32;
            let rest = p.preload.len() as u64 - p.age_at as u64;
            p.age_to = near - self.r.below(rest + 12) - 1;
        }
        if !p.preload.is_empty() && self.one_in(4) {
            p.header = Some(self.meta().unwrap_or((None, None)));
        }
    }
    /// Damage some preloaded blocks.
    fn damage(&mut self, p: &mut Plan) {
        if p.age_to > 0 {
            return;
        }
        let log = crate::run::preload(p);
        let len = log.len();
        let m = *self.r.pick(&[1u64, 1, 1, 2, 3, 8]);
        let mut at = BTreeSet::new();
        for _ in 0..m {
            // recent blocks hold the upper nodes
            let b = if self.one_in(2) { len - 1 - self.r.below(len.min(6)) } else { self.r.below(len) };
            at.insert(b);
        }
        if self.one_in(2) {
            // operate on the keys of the damaged nodes
            let mut hot = vec![];
            for b in &at {
                for n in log.blks[*b as usize].iter().flat_map(|b| &b.nodes) {
                    hot.extend(n.keys.iter().filter_map(|k| log.blks[*k as usize].as_ref()).map(|b| B(b.key.clone())));
                }
            }
            if !hot.is_empty() {
                let cold = self.keys.len();
                while self.keys.len() < 3 * cold {
                    let k = self.r.pick(&hot).clone();
                    self.keys.push(k);
                }
            }
        }
        for b in at {
            let d = match self.r.below(23) {
                18..=20 => {
                    // a child of another level, of another node, or of another version
                    let nodes = log.blks[b as usize].as_ref().map(|b| b.nodes.clone()).unwrap_or_default();
                    let inner: Vec<usize> = (0..nodes.len()).filter(|n| !nodes[*n].children.is_empty()).collect();
                    if inner.is_empty() {
                        continue;
                    }
                    let node = *self.r.pick(&inner);
                    let child = self.r.below(nodes[node].children.len() as u64) as usize;
                    let of = |(s, o): (u64, u64)| log.blks[s as usize].as_ref().map(|b| b.nodes[o as usize].children.clone()).unwrap_or_default();
                    let down = of(nodes[node].children[child]);
                    let hi = if self.one_in(4) { len - 1 } else { b };
                    let some = self.r.range(1, hi);
                    let (seq, offset) = match self.r.below(4) {
                        0 | 1 if !down.is_empty() => *self.r.pick(&down),
                        2 => *self.r.pick(&nodes[node].children),
                        3 => (some, 0),
                        _ => (some, self.r.below(log.blks[some as usize].as_ref().map(|b| b.nodes.len()).unwrap_or(1) as u64)),
                    };
                    Damage::Graft { node: node as u32, child: child as u32, seq, offset }
                }
                21 => {
                    let seq = self.r.range(1, b.max(1));
                    Damage::KeySeq { node: self.r.below(4) as u32, key: self.r.below(8) as u32, seq }
                }
                22 => Damage::Repeat { node: self.r.below(4) as u32, times: *self.r.pick(&[1, 2, 30]) },
                0 => Damage::Truncate(self.r.below(4000) as u32),
                1 => {
                    let l = self.r.below(40);
                    Damage::Garbage(B((0..l).map(|_| self.r.below(256) as u8).collect()))
                }
                2..=4 => Damage::Flip(self.r.below(4000) as u32, self.r.below(8) as u8),
                5 => Damage::NoNodes,
                6 => Damage::DropLastNode,
                7 => Damage::ChildOffset { node: self.r.below(4) as u32, child: self.r.below(8) as u32, offset: *self.r.pick(&[40, 1000, u64::MAX, 1 << 40]) },
                8 => {
                    let seq = *self.r.pick(&[0, len, len + 5, u64::MAX, u64::MAX - 1, 1 << 33]);
                    Damage::ChildSeq { node: self.r.below(4) as u32, child: self.r.below(8) as u32, seq }
                }
                9 | 10 => Damage::ChildSelf { node: self.r.below(4) as u32, child: self.r.below(8) as u32 },
                11 => Damage::OddChildren { node: self.r.below(4) as u32 },
                12 => Damage::ExtraChild { node: self.r.below(4) as u32 },
                13 => Damage::DropChild { node: self.r.below(4) as u32 },
                14 => Damage::DropKeys { node: if self.one_in(3) { ALL_LEAVES } else { self.r.below(4) as u32 } },
                15 => {
                    let seq = *self.r.pick(&[0, len, len + 9, u64::MAX, 1 << 40]);
                    Damage::KeySeq { node: self.r.below(4) as u32, key: self.r.below(8) as u32, seq }
                }
                16 => Damage::Missing,
                _ => Damage::Empty,
            };
            p.damage.push((b, d));
        }
    }
    /// Blocks that are not there: never fetched, or cleared.
    fn missing(&mut self, p: &mut Plan) {
        if p.age_to > 0 {
            return;
        }
        let len = crate::run::preload(p).len();
        let m = *self.r.pick(&[1u64, 1, 2, 3, len / 4, len / 2]);
        let at: BTreeSet<u64> = (0..m.max(1)).map(|_| if self.one_in(3) { len - 1 - self.r.below(len.min(6)) } else { self.r.below(len) }).collect();
        p.damage.extend(at.into_iter().map(|b| (b, Damage::Missing)));
    }
    /// Keys inserted in order up to just before a write that splits every level of the tree.
    fn spine(&mut self, p: &mut Plan) {
        let at = *self.r.pick(&[249usize, 249, 374, 624, 1249, 1249, 1249, 1874, 2499, 6249]) - self.r.below(6) as usize;
        let up = self.one_in(2);
        let mut all: Vec<B> = (0..at as u64 + 40).map(|i| B((1000 + i).to_be_bytes()[6..].to_vec())).collect();
        if !up {
            all.reverse();
        }
        self.next = all[at..].to_vec();
        p.preload = all[..at].iter().map(|k| (k.clone(), Some(Some(B(b"s".to_vec()))))).collect();
        self.keys = all;
    }
    /// The writes that a spine waits for, and deletes that take the levels back.
    fn climb(&mut self, p: &mut Plan) {
        if self.next.is_empty() || p.clients.is_empty() {
            return;
        }
        let next = std::mem::take(&mut self.next);
        let n = self.r.range(3, 20) as usize;
        let mut ops = vec![];
        for k in &next[..n] {
            let v = self.value();
            ops.push(self.op(k.clone(), Kind::Put(v)));
        }
        for _ in 0..self.r.below(12) {
            let k = match self.r.below(3) {
                0 => next[self.r.below(n as u64) as usize].clone(),
                1 => self.keys[self.r.below(12) as usize % self.keys.len()].clone(),
                _ => self.key(),
            };
            ops.push(self.op(k, Kind::Del));
        }
        ops.append(&mut p.clients[0].ops);
        p.clients[0].ops = ops;
    }
    fn sched(&mut self) -> Sched {
        let (policy, arg) = match self.r.below(20) {
            0..=6 => ("uniform", 0),
            7..=10 => ("sticky", self.rng(500, 970) as u32),
            11..=15 => ("pct", *self.r.pick(&[3, 10, 30, 100])),
            _ => ("lazyio", self.rng(300, 950) as u32),
        };
        Sched {
            policy: policy.into(),
            arg,
            preempt: *self.r.pick(&[0, 100, 300, 700, 1000]),
            max_delay: *self.r.pick(&[0, 20, 100, 500, 3000]),
            slow: *self.r.pick(&[0, 0, 30, 200]),
            spurious: *self.r.pick(&[0, 0, 0, 5, 40]),
            clock: *self.r.pick(&[0, 0, 0, 10, 60]),
            max_steps: 400_000,
        }
    }
    fn calm(&mut self) -> Sched {
        Sched { policy: "uniform".into(), arg: 0, preempt: 0, max_delay: 0, slow: 0, spurious: 0, clock: 0, max_steps: 1_500_000 }
    }
    fn rate(&mut self) -> u32 {
        *self.r.pick(&[5, 15, 40, 100, 250])
    }
    fn err_faults(&mut self, f: &mut Faults) {
        let mut any = false;
        for i in 0..5 {
            if self.one_in(2) {
                let rate = self.rate();
                any = true;
                match i {
                    0 => f.read_err = rate,
                    1 => f.app_before = rate,
                    2 => f.app_after = rate,
                    3 => f.app_ghost = rate,
                    _ => {
                        f.full = rate / 4 + 5;
                        f.full_len = self.rng(1, 8) as u32;
                    }
                }
            }
        }
        if !any {
            f.app_before = 60;
            f.read_err = 30;
        }
    }
    fn crash_faults(&mut self, f: &mut Faults) {
        f.max_crashes = self.rng(1, 4) as u32;
        match self.r.below(3) {
            0 => f.crash_after = self.rate(),
            1 => f.crash_before = self.rate(),
            _ => {
                f.crash_after = self.rate();
                f.crash_before = self.rate();
            }
        }
        if self.one_in(3) {
            f.crash_read = self.rng(2, 30) as u32;
        }
        if self.one_in(3) {
            f.open_err = *self.r.pick(&[50, 300]);
        }
    }
    /// All keys ever used, through handle 0.
    fn used(&self, p: &Plan) -> Vec<Vec<u8>> {
        let mut s: BTreeSet<Vec<u8>> = BTreeSet::new();
        for (k, _) in &p.preload {
            s.insert(k.0.clone());
        }
        for c in &p.clients {
            for o in &c.ops {
                if o.kind.is_write() && !matches!(o.kind, Kind::Header(_)) {
                    s.insert(p.full_key(o));
                }
            }
        }
        s.into_iter().collect()
    }
    fn reads(&mut self, p: &mut Plan, node: u32, cap: usize) {
        let mut ks = self.used(p);
        if ks.len() > cap {
            self.r.shuffle(&mut ks);
            ks.truncate(cap);
        }
        for k in ks {
            let o = self.op(B(k), Kind::Get);
            p.finale.push((node, o));
        }
        let k = self.bound_key();
        let o = self.op(k, Kind::Get);
        p.finale.push((node, o));
        if p.api == "rust" {
            for rev in [false, true] {
                let k = self.full_traverse(rev);
                let o = self.op(B::default(), k);
                p.finale.push((node, o));
            }
            let o = self.op(B::default(), Kind::Height);
            p.finale.push((node, o));
        }
        let o = self.op(B::default(), Kind::Version);
        p.finale.push((node, o));
    }
    fn writes(&mut self, p: &mut Plan, n: usize) {
        for _ in 0..n {
            let o = if p.api == "rust" { self.mixed(&[2, 6, 5, 2, 1, 0, 0, 1, 0, 0, 0, 0, 0]) } else { self.mixed(&[2, 6, 5, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0]) };
            p.finale.push((1, o));
        }
    }
    fn reopen(&mut self, p: &mut Plan) {
        let o = self.op(B::default(), Kind::Reopen);
        p.finale.push((1, o));
    }
    /// Read back, write a little, reopen, read back again.
    fn finale(&mut self, p: &mut Plan) {
        self.reads(p, 1, 40);
        if !p.readonly {
            let n = self.rng(1, 6) as usize;
            self.writes(p, n);
        }
        self.reopen(p);
        self.reads(p, 1, 40);
        if !p.readonly {
            let n = self.rng(0, 3) as usize;
            self.writes(p, n);
            self.reads(p, 1, 10);
        }
    }
    fn clients(&mut self, p: &mut Plan, n: usize, lo: u64, hi: u64, w: &[u32; 13]) {
        for _ in 0..n {
            let m = self.rng(lo, hi);
            let mut ops = vec![];
            for _ in 0..m {
                ops.push(self.mixed(w));
            }
            p.clients.push(Client { node: 1, ops, once: self.one_in(4) });
        }
        self.climb(p);
    }
    /// Some compare functions panic.
    fn panics(&mut self, p: &mut Plan) {
        let pm = *self.r.pick(&[0, 50, 300]);
        for o in p.clients.iter_mut().flat_map(|c| c.ops.iter_mut()) {
            if self.r.pm(pm) && o.cancel.is_none() {
                match &mut o.kind {
                    Kind::CasPut(_, p) | Kind::CasDel(p) => *p = Pred::Panic,
                    _ => {}
                }
            }
        }
    }
    fn subs(&mut self, p: &mut Plan, n: usize) {
        const P: [&[u8]; 12] = [b"", b"a", b"ab", b"a\0", b"\xff", b"\xff\xff", b"\0", b"b", b"a\xff", b"users", b"!", b"\xfe"];
        // the separator 0 stands for the default one (see run.rs)
        const S: [&[u8]; 10] = [b"\0", b"\0", b"\0", b"", b"!", b"\xff", b"\xff\xff", b"/", b"a", b"\x01"];
        for _ in 0..n {
            let pre = B(self.r.pick(&P).to_vec());
            let sep = B(self.r.pick(&S).to_vec());
            p.subs.push((pre, sep));
        }
        self.nsubs = n;
    }
    /// Remove anything a storage fault could turn into a hole of the workload.
    fn opened(&mut self, p: &mut Plan) {
        if p.open == "ram" {
            p.preload.clear();
            p.age = 0;
            p.age_to = 0;
            p.header = None;
        }
    }
}

/// Could a key lie within these bounds? (the builder rejects the others)
pub fn possible(c: &Conf) -> bool {
    if c.min == Bound::Never || c.max == Bound::Never {
        return false;
    }
    let (a, ai) = match &c.min {
        Bound::Inc(k) => (k, true),
        Bound::Exc(k) => (k, false),
        _ => return true,
    };
    let (b, bi) = match &c.max {
        Bound::Inc(k) => (k, true),
        Bound::Exc(k) => (k, false),
        _ => return true,
    };
    a < b || (a == b && ai && bi)
}

// get put del casput casdel incr trav ver hdr sleep height print debug
const W_MIX: [u32; 13] = [14, 30, 22, 8, 6, 0, 4, 3, 1, 2, 1, 0, 1];
const W_WRITE: [u32; 13] = [8, 40, 30, 5, 4, 0, 2, 1, 1, 1, 1, 0, 1];
const W_DEL: [u32; 13] = [4, 18, 60, 2, 6, 0, 2, 1, 0, 1, 1, 0, 1];
const W_READ: [u32; 13] = [40, 20, 12, 4, 3, 0, 6, 5, 1, 2, 1, 1, 1];
const W_CAS: [u32; 13] = [14, 12, 8, 30, 22, 8, 0, 1, 1, 3, 0, 0, 1];
const W_TRAV: [u32; 13] = [6, 20, 16, 3, 2, 0, 40, 1, 0, 4, 0, 2, 1];

pub fn plan(prop: &str, seed: u64) -> Plan {
    if prop == "C22" {
        let of = *Rng::new(seed ^ 0xc22).pick(&["C02", "C03", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19"]);
        let mut p = plan(of, seed);
        p.prop = prop.into();
        p.sched.max_delay = p.sched.max_delay.max(100);
        p.sched.slow = p.sched.slow.max(100);
        return p;
    }
    if prop == "C21" {
        let of = *Rng::new(seed ^ 0xc21).pick(&["C01", "C02", "C03", "C04", "C05", "C08", "C08", "C09", "C10", "C11", "C13", "C15", "C16"]);
        let mut p = plan(of, seed);
        p.prop = prop.into();
        return p;
    }
    if prop == "C20" {
        // any history at all
        let of = *Rng::new(seed ^ 0xc20).pick(&["C01", "C02", "C03", "C04", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19"]);
        let mut p = plan(of, seed);
        p.prop = prop.into();
        return p;
    }
    let mut g = G { r: Rng::new(seed), id: 0, keys: vec![], nsubs: 0, ctr: 0, next: vec![] };
    let mut p = Plan {
        prop: prop.into(),
        seed,
        sched: g.sched(),
        faults: Faults::default(),
        open: "disk".into(),
        api: "rust".into(),
        readonly: false,
        replicas: 0,
        traced: false,
        second: false,
        age: 0,
        age_to: 0,
        age_at: 0,
        subs: vec![],
        header: None,
        preload: vec![],
        damage: vec![],
        clients: vec![],
        finale: vec![],
    };
    p.faults.core_lock = g.one_in(2);
    p.traced = g.one_in(14);
    match prop {
        "C01" => {
            if g.one_in(4) {
                g.subs(&mut p, 2);
            }
            let n = g.size();
            g.world(&mut p, n, 200);
            let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
            g.crash_faults(&mut f);
            if g.one_in(5) {
                g.err_faults(&mut f);
            }
            p.faults = f;
            if g.one_in(3) {
                p.sched = g.calm();
            }
            match g.r.below(10) {
                0..=4 => g.clients(&mut p, 1, 20, 90, &W_WRITE),
                5 => g.clients(&mut p, 1, 20, 60, &W_DEL),
                _ => {
                    let n = g.rng(2, 4) as usize;
                    g.clients(&mut p, n, 5, 20, &W_MIX)
                }
            }
            if g.one_in(3) {
                // killed at arbitrary moments, not only inside storage calls
                let mut ops = vec![];
                for _ in 0..g.rng(1, 3) {
                    let us = g.r.below(6000) as u32;
                    ops.push(g.op(B::default(), Kind::Sleep(us)));
                    ops.push(g.op(B::default(), Kind::Kill(1)));
                }
                p.clients.push(Client { node: 0, ops, once: false });
            }
            g.finale(&mut p);
        }
        "C02" => {
            if g.one_in(5) {
                g.subs(&mut p, 2);
            }
            let n = g.size();
            g.world(&mut p, n, 200);
            let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
            g.err_faults(&mut f);
            if g.one_in(6) {
                g.crash_faults(&mut f);
            }
            p.faults = f;
            p.readonly = g.one_in(16);
            p.open = (*g.r.pick(&["disk", "disk", "core", "ram"])).into();
            g.opened(&mut p);
            match g.r.below(10) {
                0..=3 => g.clients(&mut p, 1, 15, 70, &W_WRITE),
                4..=6 => g.clients(&mut p, 1, 15, 50, &W_DEL),
                _ => {
                    let n = g.rng(2, 4) as usize;
                    g.clients(&mut p, n, 4, 15, &W_MIX)
                }
            }
            g.finale(&mut p);
        }
        "C03" | "C14" => {
            if g.one_in(4) {
                g.subs(&mut p, 2);
            }
            let n = g.size();
            g.world(&mut p, n, 200);
            p.open = (*g.r.pick(&["disk", "disk", "core", "ram"])).into();
            g.opened(&mut p);
            // few keys, so that operations meet
            let m = *g.r.pick(&[1usize, 2, 3, 4, 8]);
            let all = g.keys.clone();
            if g.pm(700) {
                let at = g.r.below(all.len() as u64) as usize;
                g.keys = all.iter().cycle().skip(at).take(m.min(all.len())).cloned().collect();
            }
            let w = if prop == "C14" { *g.r.pick(&[W_MIX, W_TRAV, W_READ, W_CAS, W_DEL]) } else { *g.r.pick(&[W_MIX, W_MIX, W_READ, W_DEL, W_CAS]) };
            let n = g.rng(2, 5) as usize;
            g.clients(&mut p, n, 2, 10, &w);
            if prop == "C14" {
                if g.one_in(2) {
                    let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
                    g.err_faults(&mut f);
                    if g.one_in(4) && p.open != "ram" {
                        g.crash_faults(&mut f);
                    }
                    p.faults = f;
                }
                if g.one_in(2) {
                    for c in p.clients.iter_mut() {
                        for o in c.ops.iter_mut() {
                            if g.r.pm(150) {
                                o.cancel = Some(g.r.range(1, 14) as u32);
                            }
                        }
                    }
                }
                g.panics(&mut p);
                if g.one_in(3) {
                    // a header is asked for while traversals are open
                    let c = g.r.below(p.clients.len() as u64) as usize;
                    let at = p.clients[c].ops.iter().position(|o| matches!(o.kind, Kind::Traverse { .. })).map_or(0, |i| i + 1);
                    let o = g.op(B::default(), Kind::Header(None));
                    p.clients[c].ops.insert(at, o);
                }
                p.sched.max_steps = 600_000;
            } else if g.one_in(5) {
                p.faults.read_err = g.rate();
            }
            if prop == "C14" && p.open != "ram" && g.one_in(4) {
                p.replicas = 1;
                let mut ops = vec![];
                for _ in 0..g.rng(1, 3) {
                    let us = g.r.below(2000) as u32;
                    ops.push(g.op(B::default(), Kind::Sleep(us)));
                    let a_init = g.one_in(2);
                    ops.push(g.op(B::default(), Kind::Connect { a: 1, b: 2, a_init }));
                }
                p.clients.push(Client { node: 0, ops, once: false });
            }
            g.keys = all;
            g.finale(&mut p);
        }
        "C04" => {
            if g.one_in(5) {
                g.subs(&mut p, 2);
            }
            let n = g.size();
            g.world(&mut p, n, 200);
            p.open = (*g.r.pick(&["disk", "disk", "core", "ram"])).into();
            g.opened(&mut p);
            let all = g.keys.clone();
            let m = *g.r.pick(&[1usize, 1, 2, 3]);
            let at = g.r.below(all.len() as u64) as usize;
            g.keys = all.iter().cycle().skip(at).take(m.min(all.len())).cloned().collect();
            let n = g.rng(2, 5) as usize;
            match g.r.below(4) {
                0 => {
                    for _ in 0..n {
                        let mut ops = vec![];
                        for _ in 0..g.rng(1, 6) {
                            ops.push(g.op(B(b"counter".to_vec()), Kind::Incr));
                        }
                        p.clients.push(Client { node: 1, ops, once: false });
                    }
                }
                1 => {
                    // read, then swap what was read
                    for _ in 0..n {
                        let mut ops = vec![];
                        for _ in 0..g.rng(1, 5) {
                            let k = g.key();
                            ops.push(g.op(k.clone(), Kind::Get));
                            let v = g.value();
                            let kind = if g.one_in(3) { Kind::CasDel(Pred::SameAsLastGet) } else { Kind::CasPut(v, Pred::SameAsLastGet) };
                            ops.push(g.op(k, kind));
                        }
                        p.clients.push(Client { node: 1, ops, once: false });
                    }
                }
                _ => g.clients(&mut p, n, 2, 12, &W_CAS),
            }
            if g.one_in(5) {
                let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
                g.err_faults(&mut f);
                p.faults = f;
            }
            g.keys = all;
            g.finale(&mut p);
        }
        "C05" | "C06" => {
            if g.one_in(6) {
                g.subs(&mut p, 2);
            }
            let n = match g.r.below(20) {
                0..=3 => g.size(),
                4..=10 => g.rng(20, 90) as usize,
                11..=18 => g.rng(90, 260) as usize,
                _ => g.rng(300, 700) as usize,
            };
            let d = *g.r.pick(&[0, 0, 150, 350]);
            g.world(&mut p, n, d);
            if g.one_in(2) {
                p.sched = g.calm();
            }
            let w = match g.r.below(5) {
                0 => W_WRITE,
                1 => W_MIX,
                _ => W_DEL,
            };
            if g.one_in(2) {
                g.clients(&mut p, 1, 20, 110, &w)
            } else {
                let n = g.rng(2, 4) as usize;
                g.clients(&mut p, n, 5, 30, &w)
            }
            if p.preload.is_empty() && g.one_in(3) {
                let k = g.header();
                let o = g.op(B::default(), k);
                p.clients[0].ops.insert(0, o);
            }
            if g.one_in(6) {
                // drain: delete everything in some order
                let mut ks: Vec<B> = g.keys.clone();
                g.r.shuffle(&mut ks);
                ks.truncate(120);
                for k in ks {
                    let o = g.op(k, Kind::Del);
                    p.clients[0].ops.push(o);
                }
            }
            match g.r.below(6) {
                0 | 1 => {
                    let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
                    g.err_faults(&mut f);
                    if g.one_in(2) {
                        g.crash_faults(&mut f);
                    }
                    p.faults = f;
                }
                2 => {
                    for c in p.clients.iter_mut() {
                        for o in c.ops.iter_mut() {
                            if g.r.pm(120) {
                                o.cancel = Some(g.r.range(1, 14) as u32);
                            }
                        }
                    }
                }
                _ => {}
            }
            g.finale(&mut p);
        }
        "C07" => {
            let n = if g.pm(600) { 0 } else { g.size() };
            g.world(&mut p, n, 300);
            if n == 0 {
                g.universe(6);
            }
            p.open = (*g.r.pick(&["disk", "disk", "core", "ram"])).into();
            g.opened(&mut p);
            let w = *g.r.pick(&[
                [10, 20, 15, 10, 8, 0, 3, 10, 20, 3, 0, 0, 0],
                [5, 20, 5, 5, 3, 0, 1, 8, 8, 2, 0, 0, 0],
                [20, 10, 25, 15, 15, 0, 5, 5, 2, 2, 1, 1, 1],
            ]);
            let n = g.rng(1, 5) as usize;
            g.clients(&mut p, n, 1, 9, &w);
            if g.one_in(2) {
                let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
                g.err_faults(&mut f);
                if g.one_in(2) && p.open != "ram" {
                    g.crash_faults(&mut f);
                }
                p.faults = f;
            }
            if g.one_in(4) {
                for c in p.clients.iter_mut() {
                    for o in c.ops.iter_mut() {
                        if g.r.pm(200) {
                            o.cancel = Some(g.r.range(1, 10) as u32);
                        }
                    }
                }
            }
            p.readonly = g.one_in(25);
            g.finale(&mut p);
        }
        "C08" | "C09" => {
            if g.one_in(8) {
                g.subs(&mut p, 1);
            }
            let n = g.size().max(if g.one_in(10) { 0 } else { 8 });
            g.world(&mut p, n, 150);
            let n = g.rng(1, 4) as usize;
            if prop == "C08" && g.one_in(3) {
                // a still tree, many ranges
                let mut ops = vec![];
                for _ in 0..g.rng(10, 40) {
                    let k = g.traverse();
                    ops.push(g.op(B::default(), k));
                }
                p.clients.push(Client { node: 1, ops, once: false });
            } else {
                g.clients(&mut p, n, 3, 12, &W_TRAV);
            }
            if prop == "C09" {
                p.faults.read_err = *g.r.pick(&[10, 40, 120, 300]);
                if p.sched.spurious == 0 && g.one_in(2) {
                    p.sched.spurious = 30;
                }
                if g.one_in(8) {
                    p.faults.app_before = 60;
                }
                if !p.preload.is_empty() && g.one_in(5) {
                    g.missing(&mut p);
                    if g.one_in(2) {
                        p.faults.read_err = 0;
                    }
                }
                for c in p.clients.iter_mut() {
                    for o in c.ops.iter_mut() {
                        if let Kind::Traverse { limit, .. } = &mut o.kind {
                            if g.r.pm(700) {
                                *limit = None
                            }
                        }
                    }
                }
            }
            g.finale(&mut p);
            let mut extra = vec![];
            for _ in 0..g.rng(2, 8) {
                let k = g.traverse();
                extra.push((1, g.op(B::default(), k)));
            }
            p.finale.extend(extra);
        }
        "C19" => {
            // printing needs text, formatting and height take any key
            let n = g.size();
            g.world(&mut p, n, 200);
            if g.pm(800) {
                for k in g.keys.iter_mut().chain(p.preload.iter_mut().map(|e| &mut e.0)) {
                    if std::str::from_utf8(&k.0).is_err() {
                        *k = B(k.0.iter().flat_map(|c| if *c < 128 { vec![*c] } else { format!("\u{e9}{c}").into_bytes() }).collect());
                    }
                }
                g.keys.sort();
                g.keys.dedup();
            }
            p.open = (*g.r.pick(&["disk", "disk", "core", "ram"])).into();
            g.opened(&mut p);
            let n = g.rng(1, 4) as usize;
            g.clients(&mut p, n, 3, 16, &[2, 24, 20, 2, 2, 0, 2, 1, 1, 2, 14, 14, 6]);
            match g.r.below(4) {
                0 => p.faults.read_err = g.rate(),
                1 if p.open != "ram" && !p.preload.is_empty() && g.one_in(2) => g.missing(&mut p),
                1 if p.open != "ram" => {
                    let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
                    g.crash_faults(&mut f);
                    p.faults = f;
                }
                _ if p.preload.len() > 200 => {
                    // while nothing is cached
                    p.faults.read_err = g.rate();
                    let k = if g.one_in(3) { Kind::Print } else { Kind::Height };
                    let o = g.op(B::default(), k);
                    p.clients[0].ops.insert(0, o);
                }
                _ => {}
            }
            for round in 0..2 {
                for k in [Kind::Height, Kind::Print, Kind::Debug] {
                    let o = g.op(B::default(), k);
                    p.finale.push((1, o));
                }
                if round == 0 {
                    g.reopen(&mut p);
                }
            }
        }
        "C10" => {
            let n = g.rng(1, 4) as usize;
            g.subs(&mut p, n);
            let n = g.size().min(120);
            g.world(&mut p, n, 150);
            // keys of the parent that look like keys of subs
            let mut more = vec![];
            for (pre, sep) in &p.subs {
                let sep = if sep.0 == b"\0" { &[0u8][..] } else { &sep.0[..] };
                let ps = [&pre.0[..], sep].concat();
                more.push(ps.clone());
                more.push(pre.0.clone());
                more.push([&ps[..], b"\0"].concat());
                more.push([&ps[..], b"\xff"].concat());
                more.push([&ps[..], b"\xff\xff\xff"].concat());
                let mut up = ps.clone();
                while up.last() == Some(&0xff) {
                    up.pop();
                }
                if let Some(l) = up.last_mut() {
                    *l += 1;
                    more.push(up.clone());
                    more.push([&up[..], b"\0"].concat());
                }
                let mut down = ps.clone();
                if let Some(l) = down.last_mut() {
                    if *l > 0 {
                        *l -= 1;
                        more.push(down.clone());
                        more.push([&down[..], b"\xff"].concat());
                    }
                }
                for x in [&b""[..], b"k", b"\xff", b"\0\0"] {
                    more.push([&pre.0[..], b"\x01", x].concat());
                    more.push([&ps[..], x].concat());
                }
            }
            for m in more {
                if g.pm(700) {
                    p.preload.push((B(m), Some(Some(B(b"edge".to_vec())))));
                }
            }
            let mut pre = std::mem::take(&mut p.preload);
            g.r.shuffle(&mut pre);
            p.preload = pre;
            g.keys.extend([B(vec![]), B(b"k".to_vec()), B(vec![0xff]), B(vec![0, 0])]);
            g.keys.sort();
            g.keys.dedup();
            let n = g.rng(1, 3) as usize;
            let w = *g.r.pick(&[W_MIX, W_TRAV, W_CAS]);
            g.clients(&mut p, n, 4, 14, &w);
            if g.one_in(5) {
                p.faults.read_err = g.rate();
            }
            g.finale(&mut p);
            let mut extra = vec![];
            for i in 0..p.subs.len() {
                for _ in 0..4 {
                    let k = g.traverse();
                    let mut o = g.op(B::default(), k);
                    o.h = i as u8 + 1;
                    extra.push((1, o));
                }
                for rev in [false, true] {
                    let k = g.full_traverse(rev);
                    let mut o = g.op(B::default(), k);
                    o.h = i as u8 + 1;
                    extra.push((1, o));
                }
                for k in [&b""[..], b"k", b"\xff", b"\0\0"] {
                    let mut o = g.op(B(k.to_vec()), Kind::Get);
                    o.h = i as u8 + 1;
                    extra.push((1, o));
                }
            }
            p.finale.extend(extra);
        }
        "C11" => {
            let n = g.size().min(90);
            g.world(&mut p, n, 200);
            p.replicas = g.rng(1, 3) as u32;
            let n = g.rng(1, 2) as usize;
            g.clients(&mut p, n, 4, 16, &W_WRITE);
            for r in 0..p.replicas {
                let w = *g.r.pick(&[
                    [40, 0, 0, 0, 0, 0, 12, 10, 0, 20, 4, 0, 1],
                    [40, 0, 0, 0, 0, 0, 12, 10, 0, 20, 4, 0, 1],
                    [40, 6, 6, 3, 3, 0, 8, 10, 2, 20, 4, 1, 1],
                ]);
                let mut ops = vec![];
                for _ in 0..g.rng(4, 18) {
                    ops.push(g.mixed(&w));
                }
                p.clients.push(Client { node: r + 2, ops, once: false });
            }
            // the network: connect, cut, kill
            let mut ops = vec![];
            let mut made: Vec<u32> = vec![];
            for _ in 0..g.rng(1, 8) {
                let us = *g.r.pick(&[0, 100, 1000, 5000]);
                let us = g.r.below(us + 1) as u32;
                ops.push(g.op(B::default(), Kind::Sleep(us)));
                let o = match g.r.below(10) {
                    0..=5 => {
                        let a = if g.pm(600) { 1 } else { 1 + g.r.below(p.replicas as u64 + 1) as u32 };
                        let mut b = 2 + g.r.below(p.replicas as u64) as u32;
                        if b == a {
                            b = if a == 2 { 1 } else { 2 };
                        }
                        let a_init = g.one_in(2);
                        let o = g.op(B::default(), Kind::Connect { a, b, a_init });
                        made.push(o.id);
                        o
                    }
                    6..=8 if !made.is_empty() => {
                        let id = *g.r.pick(&made.clone());
                        g.op(B::default(), Kind::Cut(id))
                    }
                    _ => {
                        let n = 1 + g.r.below(p.replicas as u64 + 1) as u32;
                        g.op(B::default(), Kind::Kill(n))
                    }
                };
                ops.push(o);
            }
            p.clients.push(Client { node: 0, ops, once: false });
            if g.one_in(4) {
                p.faults.read_err = g.rate() / 2;
            }
            // heal: a chain or star, either side initiating
            let star = g.one_in(2);
            for i in 0..p.replicas {
                let a = if star { 1 } else { i + 1 };
                let a_init = g.one_in(2);
                let o = g.op(B::default(), Kind::Connect { a, b: i + 2, a_init });
                p.finale.push((1, o));
            }
            let o = g.op(B::default(), Kind::Converge);
            p.finale.push((1, o));
            let n = g.rng(0, 4) as usize;
            g.reads(&mut p, 1, 20);
            for r in 0..p.replicas {
                g.reads(&mut p, r + 2, 30);
            }
            g.writes(&mut p, n);
            let o = g.op(B::default(), Kind::Converge);
            p.finale.push((1, o));
            for r in 0..p.replicas {
                g.reads(&mut p, r + 2, 30);
            }
        }
        "C12" => {
            let n = match g.r.below(4) {
                0 => g.rng(1, 12) as usize,
                1 | 2 => g.rng(12, 60) as usize,
                _ => g.rng(60, 160) as usize,
            };
            g.world(&mut p, n, 150);
            g.damage(&mut p);
            if g.one_in(2) {
                p.sched = g.calm();
            }
            let w = *g.r.pick(&[[40, 0, 0, 0, 0, 0, 10, 3, 0, 0, 5, 5, 1], [20, 15, 25, 6, 6, 0, 8, 1, 1, 0, 3, 3, 1], [10, 10, 40, 4, 8, 0, 8, 1, 0, 0, 3, 3, 1]]);
            let n = g.rng(1, 3) as usize;
            g.clients(&mut p, n, 4, 24, &w);
            if g.one_in(10) {
                p.faults.read_err = 20;
            }
            p.sched.max_steps = 3_000_000;
            g.reads(&mut p, 1, 60);
        }
        "C13" => {
            if g.one_in(5) {
                g.subs(&mut p, 2);
            }
            let n = g.size();
            g.world(&mut p, n, 200);
            p.open = (*g.r.pick(&["disk", "disk", "core", "ram"])).into();
            g.opened(&mut p);
            let all = g.keys.clone();
            if g.one_in(2) {
                let m = *g.r.pick(&[1usize, 2, 4]);
                let at = g.r.below(all.len() as u64) as usize;
                g.keys = all.iter().cycle().skip(at).take(m.min(all.len())).cloned().collect();
            }
            let n = g.rng(1, 4) as usize;
            let w = *g.r.pick(&[W_WRITE, W_MIX, W_DEL, W_CAS, W_TRAV]);
            g.clients(&mut p, n, 3, 14, &w);
            let pm = *g.r.pick(&[150, 400, 800]);
            let hi = *g.r.pick(&[3, 8, 25]);
            for c in p.clients.iter_mut() {
                for o in c.ops.iter_mut() {
                    if g.r.pm(pm) {
                        o.cancel = Some(g.r.range(1, hi) as u32);
                    }
                }
            }
            g.panics(&mut p);
            if g.one_in(5) {
                let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
                g.err_faults(&mut f);
                p.faults = f;
            }
            g.keys = all;
            g.finale(&mut p);
        }
        "C15" => {
            p.api = "c".into();
            let n = g.size().min(120);
            g.world(&mut p, n, 200);
            // few callers with many gets, or many gets in flight at once
            let (n, most) = if g.one_in(4) { (g.rng(8, 60) as usize, 3) } else { (g.rng(1, 6) as usize, 15) };
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..g.rng(1, most) {
                    let k = if g.one_in(4) { g.bound_key() } else { g.key() };
                    ops.push(g.op(k, Kind::Get));
                    if g.one_in(8) {
                        let us = g.r.below(500) as u32;
                        ops.push(g.op(B::default(), Kind::Sleep(us)));
                    }
                }
                p.clients.push(Client { node: 1, ops, once: false });
            }
            if g.one_in(2) {
                p.faults.read_err = g.rate();
            }
            if g.one_in(3) {
                p.faults.open_err = *g.r.pick(&[100, 400]);
            }
            if !p.preload.is_empty() && g.one_in(8) {
                g.damage(&mut p);
            }
            if g.one_in(4) {
                // closed with gets in flight
                p.faults.max_crashes = g.rng(1, 4) as u32;
                p.faults.crash_read = g.rng(2, 60) as u32;
            }
            g.reads(&mut p, 1, 30);
            g.reopen(&mut p);
            g.reads(&mut p, 1, 20);
        }
        "C16" => {
            p.api = "uniffi".into();
            if g.one_in(2) {
                g.subs(&mut p, 2);
            }
            let n = g.size().min(120);
            g.world(&mut p, n, 200);
            p.open = (*g.r.pick(&["disk", "disk", "disk", "ram"])).into();
            g.opened(&mut p);
            let n = g.rng(1, 4) as usize;
            g.clients(&mut p, n, 3, 14, &[30, 35, 25, 0, 0, 0, 0, 8, 0, 2, 0, 0, 0]);
            match g.r.below(5) {
                3 if p.open != "ram" && !p.preload.is_empty() && g.one_in(2) => g.damage(&mut p),
                0 => {
                    let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
                    g.err_faults(&mut f);
                    if p.open != "ram" && g.one_in(2) {
                        f.open_err = 300;
                    }
                    p.faults = f;
                }
                1 => {
                    for c in p.clients.iter_mut() {
                        for o in c.ops.iter_mut() {
                            if g.r.pm(250) {
                                o.cancel = Some(g.r.range(1, 8) as u32);
                            }
                        }
                    }
                }
                2 if p.open != "ram" => {
                    let mut f = Faults { core_lock: p.faults.core_lock, ..Default::default() };
                    g.crash_faults(&mut f);
                    p.faults = f;
                }
                _ => {}
            }
            g.finale(&mut p);
        }
        _ => panic!("unknown property {prop}"),
    }
    if p.api == "rust" && p.open != "ram" && p.replicas == 0 && p.damage.is_empty() && matches!(prop, "C01" | "C02" | "C03" | "C04" | "C08" | "C10" | "C13" | "C14") && g.one_in(8) {
        p.open = "core".into();
        p.second = true;
    }
    if p.open == "ram" {
        // memory does not survive a crash
        p.faults.crash_before = 0;
        p.faults.crash_after = 0;
        p.faults.crash_read = 0;
    }
    p
}
