//! Reference model: wire format, B-tree algorithm of the JavaScript Hyperbee, map with history,
//! structural checker. Independent of the code under test.
use hypercore::sim::Sparse;
use std::collections::{BTreeMap, BTreeSet};

pub type Bytes = Vec<u8>;
pub type Val = Option<Bytes>;

pub const MAX: usize = 8;
pub const MIN: usize = 4;

// ---------------------------------------------------------------- wire format
pub fn put_varint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push((x as u8) | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}
fn get_varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut x = 0u64;
    for i in 0..10 {
        let c = *b.get(*p)?;
        *p += 1;
        x |= ((c & 0x7f) as u64) << (7 * i);
        if c & 0x80 == 0 {
            return Some(x);
        }
    }
    None
}
pub fn put_bytes(out: &mut Vec<u8>, field: u32, b: &[u8]) {
    put_varint(out, ((field << 3) | 2) as u64);
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
/// Length-delimited fields of a message, in order. None: not a message of such fields.
fn fields(b: &[u8]) -> Option<Vec<(u32, &[u8])>> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let tag = get_varint(b, &mut p)?;
        if tag & 7 != 2 {
            return None;
        }
        let n = get_varint(b, &mut p)? as usize;
        let s = b.get(p..p.checked_add(n)?)?;
        p += n;
        out.push(((tag >> 3) as u32, s));
    }
    Some(out)
}
fn packed(b: &[u8]) -> Option<Vec<u64>> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        out.push(get_varint(b, &mut p)?);
    }
    Some(out)
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Nd {
    pub keys: Vec<u64>,
    pub children: Vec<(u64, u64)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk {
    pub key: Bytes,
    pub value: Val,
    pub nodes: Vec<Nd>,
}

pub fn encode_index(nodes: &[Nd]) -> Vec<u8> {
    let mut index = vec![];
    for n in nodes {
        let mut l = vec![];
        if !n.keys.is_empty() {
            let mut k = vec![];
            n.keys.iter().for_each(|x| put_varint(&mut k, *x));
            put_bytes(&mut l, 1, &k);
        }
        if !n.children.is_empty() {
            let mut k = vec![];
            n.children.iter().for_each(|(s, o)| {
                put_varint(&mut k, *s);
                put_varint(&mut k, *o)
            });
            put_bytes(&mut l, 2, &k);
        }
        put_bytes(&mut index, 1, &l);
    }
    index
}
pub fn encode_block(b: &Blk) -> Vec<u8> {
    encode_raw(&encode_index(&b.nodes), &b.key, b.value.as_deref())
}
pub fn encode_raw(index: &[u8], key: &[u8], value: Option<&[u8]>) -> Vec<u8> {
    let mut out = vec![];
    put_bytes(&mut out, 1, index);
    put_bytes(&mut out, 2, key);
    if let Some(v) = value {
        put_bytes(&mut out, 3, v);
    }
    out
}
pub fn decode_block(b: &[u8]) -> Option<Blk> {
    let mut key = None;
    let mut index = None;
    let mut value = None;
    for (f, s) in fields(b)? {
        match f {
            1 => index = Some(s),
            2 => key = Some(s.to_vec()),
            3 => value = Some(s.to_vec()),
            _ => return None,
        }
    }
    let mut nodes = vec![];
    for (f, s) in fields(index?)? {
        if f != 1 {
            return None;
        }
        let mut n = Nd::default();
        for (g, t) in fields(s)? {
            let v = packed(t)?;
            match g {
                1 => n.keys.extend(v),
                2 => {
                    if v.len() % 2 != 0 {
                        return None;
                    }
                    n.children.extend(v.chunks(2).map(|c| (c[0], c[1])))
                }
                _ => return None,
            }
        }
        nodes.push(n);
    }
    Some(Blk { key: key?, value, nodes })
}
pub fn encode_header(meta: Option<&(Val, Val)>) -> Vec<u8> {
    let mut out = vec![];
    put_bytes(&mut out, 1, b"hyperbee");
    if let Some((cf, ud)) = meta {
        let mut m = vec![];
        if let Some(c) = cf {
            put_bytes(&mut m, 1, c);
        }
        if let Some(u) = ud {
            put_bytes(&mut m, 2, u);
        }
        put_bytes(&mut out, 2, &m);
    }
    out
}

// ---------------------------------------------------------------- log with history
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Kv {
    pub seq: u64,
    pub key: Bytes,
    pub value: Val,
}

#[derive(Default, Clone)]
pub struct Log {
    /// raw bytes
    pub raw: Sparse<Bytes>,
    /// decoded; None for the header or an undecodable block
    pub blks: Sparse<Option<Blk>>,
    /// per key: (seq, Some(value) or None = deleted)
    pub hist: BTreeMap<Bytes, Vec<(u64, Option<Val>)>>,
    memo: BTreeMap<(u64, u64), Sub>,
    live_hash: Sparse<(u64, u64)>,
}
#[derive(Clone, Debug)]
struct Sub {
    height: u32,
    count: u64,
    hash: u64,
    lo: Option<Bytes>,
    hi: Option<Bytes>,
}
fn hseq(s: u64) -> u64 {
    simrt::mix(0x5eed, s)
}

impl Log {
    pub fn len(&self) -> u64 {
        self.raw.len() as u64
    }
    pub fn push_header(&mut self, b: Bytes) {
        self.raw.push(b);
        self.blks.push(None);
        self.live_hash.push(self.live_hash.last().copied().unwrap_or((0, 0)));
    }
    /// `n` blocks that nothing refers to: writes of a key that is then written again.
    pub fn stretch(&mut self, n: u64) {
        let last = self.live_hash.last().copied().unwrap_or((0, 0));
        self.raw.stretch(n, vec![]);
        self.blks.stretch(n, None);
        self.live_hash.stretch(n, last);
    }
    /// Append a block whose intended effect is known.
    pub fn push(&mut self, raw: Bytes, key: &[u8], effect: Option<Val>) {
        let seq = self.len();
        let (mut h, mut n) = self.live_hash.last().copied().unwrap_or((0, 0));
        if let Some(old) = self.lookup(key, seq) {
            h = h.wrapping_sub(hseq(old.seq));
            n = n.saturating_sub(1);
        }
        if effect.is_some() {
            h = h.wrapping_add(hseq(seq));
            n += 1;
        }
        self.live_hash.push((h, n));
        self.hist.entry(key.to_vec()).or_default().push((seq, effect));
        self.blks.push(decode_block(&raw));
        self.raw.push(raw);
    }
    /// Entry of `key` in the version with `len` blocks.
    pub fn lookup(&self, key: &[u8], len: u64) -> Option<Kv> {
        let h = self.hist.get(key)?;
        let e = h.iter().rev().find(|(s, _)| *s < len)?;
        e.1.as_ref().map(|v| Kv { seq: e.0, key: key.to_vec(), value: v.clone() })
    }
    pub fn range(&self, len: u64, f: impl Fn(&[u8]) -> bool) -> Vec<Kv> {
        self.hist.keys().filter(|k| f(k)).filter_map(|k| self.lookup(k, len)).collect()
    }
    fn node(&self, seq: u64, off: u64) -> Option<&Nd> {
        self.blks.get(seq as usize)?.as_ref()?.nodes.get(off as usize)
    }
    fn key_of(&self, seq: u64) -> Option<&Bytes> {
        self.blks.get(seq as usize)?.as_ref().map(|b| &b.key)
    }

    // ------------------------------------------------------------ structure of a version
    /// Is the tree rooted in block `seq` a valid B-tree with exactly the live keys?
    pub fn check_version(&mut self, seq: u64) -> Result<(u32, u64), String> {
        let Some(b) = self.blks.get(seq as usize).and_then(|b| b.as_ref()) else {
            return Err(format!("block {seq} cannot be decoded"));
        };
        if b.nodes.is_empty() {
            return Err(format!("block {seq} has no root node"));
        }
        let nn = b.nodes.len() as u64;
        let root = b.nodes[0].clone();
        if root.keys.is_empty() && !root.children.is_empty() {
            return Err(format!("block {seq}: root has children but no keys"));
        }
        let mut seen = vec![];
        let s = self.sub(seq, 0, seq, true, 0, &mut seen)?;
        // every node of the block is part of the tree
        seen.sort();
        if seen.len() as u64 != nn {
            return Err(format!("block {seq}: {} of its {} nodes are reachable", seen.len(), nn));
        }
        let (h, n) = self.live_hash[seq as usize];
        if (s.hash, s.count) != (h, n) {
            return Err(format!(
                "version {}: tree holds {} entries, {} are live; or the wrong ones: {}",
                seq + 1,
                s.count,
                n,
                self.diff(seq)
            ));
        }
        Ok((s.height, s.count))
    }
    fn diff(&self, seq: u64) -> String {
        let mut got = vec![];
        self.collect(seq, 0, &mut got, 0);
        let want: Vec<u64> = self.range(seq + 1, |_| true).iter().map(|k| k.seq).collect();
        let extra: Vec<_> = got.iter().filter(|s| !want.contains(s)).collect();
        let miss: Vec<_> = want.iter().filter(|s| !got.contains(s)).collect();
        format!("unexpected entries {extra:?}, missing entries {miss:?}")
    }
    fn collect(&self, seq: u64, off: u64, out: &mut Vec<u64>, depth: u32) {
        if depth > 40 || out.len() > 10_000 {
            return;
        }
        if let Some(n) = self.node(seq, off) {
            for (i, k) in n.keys.iter().enumerate() {
                if let Some(c) = n.children.get(i) {
                    self.collect(c.0, c.1, out, depth + 1);
                }
                out.push(*k);
            }
            if let Some(c) = n.children.get(n.keys.len()) {
                self.collect(c.0, c.1, out, depth + 1);
            }
        }
    }
    fn sub(&mut self, seq: u64, off: u64, top: u64, root: bool, depth: u32, seen: &mut Vec<u64>) -> Result<Sub, String> {
        if depth > 60 {
            return Err(format!("version {}: references form a cycle", top + 1));
        }
        if seq == top {
            if seen.contains(&off) {
                return Err(format!("block {top}: node {off} referenced twice"));
            }
            seen.push(off);
        } else if let Some(s) = self.memo.get(&(seq, off)) {
            return Ok(s.clone());
        }
        if seq > top {
            return Err(format!("block {top} refers to the later block {seq}"));
        }
        let Some(n) = self.node(seq, off).cloned() else {
            return Err(format!("version {}: no node ({seq}, {off})", top + 1));
        };
        if n.keys.len() > MAX {
            return Err(format!("node ({seq},{off}) has {} keys", n.keys.len()));
        }
        if !root && n.keys.len() < MIN {
            return Err(format!("version {}: node ({seq},{off}) below the root has only {} keys", top + 1, n.keys.len()));
        }
        if !n.children.is_empty() && n.children.len() != n.keys.len() + 1 {
            return Err(format!("node ({seq},{off}) has {} keys and {} children", n.keys.len(), n.children.len()));
        }
        let mut out = Sub { height: 1, count: 0, hash: 0, lo: None, hi: None };
        let mut last: Option<Bytes> = None;
        let mut ch: Option<u32> = None;
        for i in 0..=n.keys.len() {
            if !n.children.is_empty() {
                let c = n.children[i];
                let s = self.sub(c.0, c.1, top, false, depth + 1, seen)?;
                if *ch.get_or_insert(s.height) != s.height {
                    return Err(format!("version {}: leaves at different depths under node ({seq},{off})", top + 1));
                }
                if let (Some(l), Some(lo)) = (&last, &s.lo) {
                    if l >= lo {
                        return Err(format!("version {}: keys out of order under node ({seq},{off})", top + 1));
                    }
                }
                if out.lo.is_none() {
                    out.lo = s.lo.clone();
                }
                if s.hi.is_some() {
                    last = s.hi.clone();
                }
                out.count += s.count;
                out.hash = out.hash.wrapping_add(s.hash);
            }
            if i < n.keys.len() {
                let ks = n.keys[i];
                if ks > top {
                    return Err(format!("block {top} refers to the later key {ks}"));
                }
                let Some(k) = self.key_of(ks).cloned() else {
                    return Err(format!("version {}: key reference {ks} names no entry", top + 1));
                };
                if let Some(l) = &last {
                    if *l >= k {
                        return Err(format!("version {}: keys out of order in node ({seq},{off})", top + 1));
                    }
                }
                if out.lo.is_none() {
                    out.lo = Some(k.clone());
                }
                last = Some(k);
                out.count += 1;
                out.hash = out.hash.wrapping_add(hseq(ks));
            }
        }
        out.hi = last;
        out.height = 1 + ch.unwrap_or(0);
        if !root {
            // below the root the result does not depend on the version
            self.memo.insert((seq, off), out.clone());
        }
        Ok(out)
    }

    // ------------------------------------------------------------ prediction of the next block
    /// The bytes the reference algorithm appends for this write, given the log so far.
    /// None: the log is damaged, or deleting an absent key.
    pub fn predict(&self, key: &[u8], effect: Option<&Val>) -> Option<Bytes> {
        let seq = self.len();
        let mut t = Arena { log: self, nodes: vec![], seq };
        // the tree of the version before a stretch is that of its end
        let (at, n) = self.blks.gap();
        let last = seq.saturating_sub(if n > 0 && seq == at + n { n + 1 } else { 1 });
        let root = if seq <= 1 { None } else { Some(t.load(last, 0)?) };
        let new_root = match effect {
            Some(_) => t.put(root, key)?,
            None => t.del(root?, key)?,
        };
        let mut out = vec![];
        t.index(new_root, &mut out);
        Some(encode_block(&Blk { key: key.to_vec(), value: effect.cloned().flatten(), nodes: out }))
    }
    /// Apply a write with the reference algorithm (used to preload logs).
    pub fn apply(&mut self, key: &[u8], effect: Option<Val>) -> bool {
        if self.raw.is_empty() {
            self.push_header(encode_header(None));
        }
        if effect.is_none() && self.lookup(key, self.len()).is_none() {
            return false;
        }
        let b = self.predict(key, effect.as_ref()).expect("reference model on its own log");
        self.push(b, key, effect);
        true
    }
    /// Nodes on the path of a search: (block, node, index of the child or key, found).
    pub fn path(&self, key: &[u8], len: u64) -> Vec<(u64, u64, usize, bool)> {
        let mut out = vec![];
        if len <= 1 {
            return out;
        }
        let (mut s, mut o) = (len - 1, 0);
        while let Some(n) = self.node(s, o) {
            let mut idx = n.keys.len();
            let mut found = false;
            for (i, k) in n.keys.iter().enumerate() {
                let Some(k) = self.key_of(*k) else { return out };
                if key <= &k[..] {
                    idx = i;
                    found = key == &k[..];
                    break;
                }
            }
            out.push((s, o, idx, found));
            if found || n.children.is_empty() || out.len() > 100 {
                break;
            }
            let Some(c) = n.children.get(idx) else { break };
            (s, o) = *c;
        }
        out
    }
    /// Blocks of the node and of all its keys.
    fn whole(&self, s: u64, o: u64, out: &mut BTreeSet<u64>) {
        out.insert(s);
        if let Some(n) = self.node(s, o) {
            out.extend(n.keys.iter().copied());
        }
    }
    /// Blocks on the way to `key` in version `len`; for the removal of a key that is there also
    /// those on the way to its neighbours, and next to these ways.
    pub fn way(&self, key: &[u8], len: u64, removal: bool, out: &mut BTreeSet<u64>) {
        let path = self.path(key, len);
        for (s, o, ..) in &path {
            self.whole(*s, *o, out);
        }
        let Some(&(s, o, idx, true)) = path.last() else { return };
        if !removal {
            return;
        }
        let near = |out: &mut BTreeSet<u64>, s: u64, o: u64, i: usize| {
            if let Some(n) = self.node(s, o) {
                for j in i.saturating_sub(1)..=i + 1 {
                    if let Some(c) = n.children.get(j) {
                        self.whole(c.0, c.1, out);
                    }
                }
            }
        };
        for (s, o, i, found) in &path {
            if !found {
                near(out, *s, *o, *i);
            }
        }
        for right in [false, true] {
            // down to the nearest smaller or larger key, and beside
            near(out, s, o, idx + right as usize);
            let mut at = self.node(s, o).and_then(|n| n.children.get(idx + right as usize).copied());
            let mut depth = 0;
            while let Some((s, o)) = at {
                self.whole(s, o, out);
                let Some(n) = self.node(s, o) else { break };
                let i = if right { 0 } else { n.children.len().saturating_sub(1) };
                near(out, s, o, i);
                at = n.children.get(i).copied();
                depth += 1;
                if depth > 100 {
                    break;
                }
            }
        }
    }
    /// Blocks of all nodes that can hold keys from `lo` to `hi`, and of the keys of these nodes.
    pub fn between(&self, lo: &[u8], hi: Option<&[u8]>, len: u64, out: &mut BTreeSet<u64>) {
        if len <= 1 {
            return;
        }
        let mut st = vec![(len - 1, 0u64)];
        while let Some((s, o)) = st.pop() {
            self.whole(s, o, out);
            let Some(n) = self.node(s, o) else { continue };
            for (i, c) in n.children.iter().enumerate() {
                let k = |j: usize| n.keys.get(j).and_then(|k| self.key_of(*k));
                let above = i > 0 && matches!((k(i - 1), hi), (Some(k), Some(hi)) if &k[..] > hi);
                let below = matches!(k(i), Some(k) if &k[..] < lo);
                if !above && !below {
                    st.push(*c);
                }
            }
        }
    }
    /// All blocks reachable from version `len`.
    pub fn reachable(&self, len: u64) -> Vec<u64> {
        let mut out = std::collections::BTreeSet::new();
        if len > 1 {
            let mut st = vec![(len - 1, 0u64)];
            let mut done = std::collections::BTreeSet::new();
            while let Some((s, o)) = st.pop() {
                if !done.insert((s, o)) {
                    continue;
                }
                out.insert(s);
                if let Some(n) = self.node(s, o) {
                    out.extend(n.keys.iter().copied());
                    st.extend(n.children.iter().copied());
                }
            }
        }
        out.into_iter().collect()
    }
    pub fn height(&self, len: u64) -> usize {
        if len <= 1 {
            return 0;
        }
        let (mut s, mut o) = (len - 1, 0);
        let mut h = 1;
        while let Some(n) = self.node(s, o) {
            match n.children.first() {
                None => break,
                Some(c) => (s, o) = *c,
            }
            h += 1;
            if h > 100 {
                break;
            }
        }
        h
    }
}

#[derive(Clone, Copy)]
enum Ref {
    Disk(u64, u64),
    Mem(usize),
}
struct MNode {
    keys: Vec<u64>,
    children: Vec<Ref>,
    changed: bool,
    /// where it came from, for nodes only looked at
    home: Option<(u64, u64)>,
}
struct Arena<'a> {
    log: &'a Log,
    nodes: Vec<MNode>,
    seq: u64,
}
impl Arena<'_> {
    fn load(&mut self, seq: u64, off: u64) -> Option<usize> {
        let n = self.log.node(seq, off)?;
        self.nodes.push(MNode {
            keys: n.keys.clone(),
            children: n.children.iter().map(|c| Ref::Disk(c.0, c.1)).collect(),
            changed: false,
            home: Some((seq, off)),
        });
        Some(self.nodes.len() - 1)
    }
    fn child(&mut self, n: usize, i: usize) -> Option<usize> {
        match *self.nodes[n].children.get(i)? {
            Ref::Mem(m) => Some(m),
            Ref::Disk(s, o) => {
                let m = self.load(s, o)?;
                self.nodes[n].children[i] = Ref::Mem(m);
                Some(m)
            }
        }
    }
    fn key(&self, seq: u64, own: &[u8]) -> Option<Bytes> {
        if seq == self.seq {
            Some(own.to_vec())
        } else {
            self.log.key_of(seq).cloned()
        }
    }
    /// (found, position)
    fn find(&self, n: usize, key: &[u8]) -> Option<(bool, usize)> {
        for (i, k) in self.nodes[n].keys.iter().enumerate() {
            let kk = self.key(*k, key)?;
            match key.cmp(&kk[..]) {
                std::cmp::Ordering::Equal => return Some((true, i)),
                std::cmp::Ordering::Less => return Some((false, i)),
                _ => {}
            }
        }
        Some((false, self.nodes[n].keys.len()))
    }
    fn put(&mut self, root: Option<usize>, key: &[u8]) -> Option<usize> {
        let seq = self.seq;
        let Some(root) = root else {
            self.nodes.push(MNode { keys: vec![seq], children: vec![], changed: true, home: None });
            return Some(self.nodes.len() - 1);
        };
        let mut stack = vec![];
        let mut n = root;
        loop {
            self.nodes[n].changed = true;
            let (found, i) = self.find(n, key)?;
            if found {
                self.nodes[n].keys[i] = seq;
                return Some(root);
            }
            if self.nodes[n].children.is_empty() {
                self.nodes[n].keys.insert(i, seq);
                break;
            }
            stack.push((n, i));
            n = self.child(n, i)?;
        }
        let mut root = root;
        while self.nodes[n].keys.len() > MAX {
            let half = self.nodes[n].keys.len() >> 1;
            let kl = self.nodes[n].keys.len();
            let rk = self.nodes[n].keys.split_off(kl - half);
            let median = self.nodes[n].keys.pop()?;
            let ch = self.nodes[n].children.len();
            let rc = self.nodes[n].children.split_off(ch - (ch >> 1));
            self.nodes.push(MNode { keys: rk, children: rc, changed: true, home: None });
            let right = self.nodes.len() - 1;
            match stack.pop() {
                Some((p, i)) => {
                    self.nodes[p].keys.insert(i, median);
                    self.nodes[p].children.insert(i + 1, Ref::Mem(right));
                    n = p;
                }
                None => {
                    self.nodes.push(MNode {
                        keys: vec![median],
                        children: vec![Ref::Mem(n), Ref::Mem(right)],
                        changed: true,
                        home: None,
                    });
                    root = self.nodes.len() - 1;
                    break;
                }
            }
        }
        Some(root)
    }
    fn del(&mut self, root: usize, key: &[u8]) -> Option<usize> {
        // path: (node, index of the child taken)
        let mut path: Vec<(usize, usize)> = vec![];
        let mut n = root;
        let at = loop {
            let (found, i) = self.find(n, key)?;
            if found {
                break i;
            }
            if self.nodes[n].children.is_empty() {
                return None;
            }
            path.push((n, i));
            n = self.child(n, i)?;
        };
        if self.nodes[n].children.is_empty() {
            self.nodes[n].keys.remove(at);
            path.push((n, 0));
        } else {
            let (mut l, mut r) = (self.child(n, at)?, self.child(n, at + 1)?);
            let (mut lp, mut rp) = (vec![(n, at)], vec![(n, at + 1)]);
            while !self.nodes[l].children.is_empty() {
                let k = self.nodes[l].children.len() - 1;
                lp.push((l, k));
                l = self.child(l, k)?;
            }
            lp.push((l, 0));
            while !self.nodes[r].children.is_empty() {
                rp.push((r, 0));
                r = self.child(r, 0)?;
            }
            rp.push((r, 0));
            if self.nodes[l].keys.len() < self.nodes[r].keys.len() {
                let k = self.nodes[r].keys.remove(0);
                self.nodes[n].keys[at] = k;
                path.extend(rp);
            } else {
                let k = self.nodes[l].keys.pop()?;
                self.nodes[n].keys[at] = k;
                path.extend(lp);
            }
        }
        for (m, _) in &path {
            self.nodes[*m].changed = true;
        }
        while path.len() > 1 {
            let (n, _) = path.pop()?;
            if self.nodes[n].keys.len() >= MIN {
                return Some(root);
            }
            let (p, i) = *path.last()?;
            let left = if i > 0 { Some(self.child(p, i - 1)?) } else { None };
            let right = if i + 1 < self.nodes[p].children.len() { Some(self.child(p, i + 1)?) } else { None };
            if let Some(l) = left {
                if self.nodes[l].keys.len() > MIN {
                    self.nodes[l].changed = true;
                    let up = self.nodes[l].keys.pop()?;
                    let down = std::mem::replace(&mut self.nodes[p].keys[i - 1], up);
                    self.nodes[n].keys.insert(0, down);
                    if let Some(c) = self.nodes[l].children.pop() {
                        self.nodes[n].children.insert(0, c);
                    }
                    return Some(root);
                }
            }
            if let Some(r) = right {
                if self.nodes[r].keys.len() > MIN {
                    self.nodes[r].changed = true;
                    let up = self.nodes[r].keys.remove(0);
                    let down = std::mem::replace(&mut self.nodes[p].keys[i], up);
                    self.nodes[n].keys.push(down);
                    if !self.nodes[r].children.is_empty() {
                        let c = self.nodes[r].children.remove(0);
                        self.nodes[n].children.push(c);
                    }
                    return Some(root);
                }
            }
            let (l, r, ki) = match (left, right) {
                (Some(l), _) => (l, n, i - 1),
                (None, Some(r)) => (n, r, i),
                _ => return None,
            };
            let k = self.nodes[p].keys.remove(ki);
            self.nodes[p].children.remove(ki + 1);
            let rk = std::mem::take(&mut self.nodes[r].keys);
            let rc = std::mem::take(&mut self.nodes[r].children);
            self.nodes[l].keys.push(k);
            self.nodes[l].keys.extend(rk);
            self.nodes[l].children.extend(rc);
            self.nodes[l].changed = true;
        }
        if self.nodes[root].keys.is_empty() && !self.nodes[root].children.is_empty() {
            return self.child(root, 0);
        }
        Some(root)
    }
    /// Pre-order numbering of the changed nodes.
    fn index(&self, n: usize, out: &mut Vec<Nd>) -> u64 {
        let at = out.len();
        out.push(Nd::default());
        let mut ch = vec![];
        for c in &self.nodes[n].children {
            ch.push(match *c {
                Ref::Disk(s, o) => (s, o),
                Ref::Mem(m) => {
                    if self.nodes[m].changed {
                        (self.seq, self.index(m, out))
                    } else {
                        self.nodes[m].home.expect("unchanged nodes come from the log")
                    }
                }
            });
        }
        out[at] = Nd { keys: self.nodes[n].keys.clone(), children: ch };
        at as u64
    }
}
