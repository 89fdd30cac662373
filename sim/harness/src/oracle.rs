//! Judges the recorded history of one run against the reference model.
use crate::model::{self, Kv, Log, Val};
use crate::plan::*;
use crate::run::*;
use hypercore::sim as core;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ while the run proceeds
/// Take new blocks of the writer's log into the model.
pub fn ingest(ctx: &C) {
    let from = ctx.borrow().ingested;
    let news: Vec<core::AppendRec> = core::with(|s| if s.appends.len() > from { s.appends[from..].to_vec() } else { vec![] });
    if news.is_empty() {
        return;
    }
    let mut c = ctx.borrow_mut();
    for a in news {
        c.ingested += 1;
        block(&mut c, a);
    }
}
fn block(c: &mut Ctx, a: core::AppendRec) {
    let damaged = !c.plan.damage.is_empty();
    if a.path != c.writer {
        c.fail("blocks", a.op, format!("block {} appended to replica {}", a.index, a.path));
        return;
    }
    if a.index != c.log.len() {
        c.fail("blocks", a.op, format!("block {} appended to a log of {} blocks", a.index, c.log.len()));
        return;
    }
    let rec = c.recs.get(&a.op).cloned();
    if a.index == 0 {
        let meta: Option<(Val, Val)> = match &rec {
            Some(Rec { kind: Kind::Header(m), .. }) => m.clone().map(|(x, y)| (x.map(|b| b.0), y.map(|b| b.0))),
            Some(Rec { kind: Kind::Put(_) | Kind::CasPut(..) | Kind::Incr, .. }) => None,
            o => {
                let who = o.as_ref().map(|r| r.kind.name()).unwrap_or("opening");
                c.fail("blocks", a.op, format!("#{} ({who}) appended the first block", a.op));
                None
            }
        };
        let want = model::encode_header(meta.as_ref());
        if a.data != want {
            c.fail("bytes", a.op, format!("header is {}, the format has {}", hex(&a.data), hex(&want)));
        }
        c.log.push_header(a.data);
        if let Some(r) = c.recs.get_mut(&a.op) {
            r.header = true;
        }
        return;
    }
    let raw = a.data;
    let got = model::decode_block(&raw);
    let mut intent = rec.as_ref().and_then(|r| r.intent.clone());
    let who = rec.as_ref().map(|r| format!("#{} ({})", a.op, r.kind.name())).unwrap_or_else(|| format!("#{}", a.op));
    if intent.is_none() {
        c.fail("blocks", a.op, format!("{who} appended block {}", a.index));
    }
    if let Some(r) = &rec {
        if !r.blocks.is_empty() {
            c.fail("blocks", a.op, format!("{who} appended a second block {} after {:?}", a.index, r.blocks));
        }
        if matches!(r.kind, Kind::CasPut(..) | Kind::CasDel(_) | Kind::Incr) && !calls_of(a.op).last().map(|x| x.ret).unwrap_or(false) {
            c.fail("cas", a.op, format!("{who} took effect in block {} although its condition was not met", a.index));
        }
    }
    match (&got, &intent) {
        (None, _) => {
            c.fail("blocks", a.op, format!("{who}: block {} is not a well-formed block", a.index));
            c.fail("struct", a.op, format!("{who}: block {} is not a well-formed block", a.index));
        }
        (Some(g), Some((k, e))) => {
            let v = e.clone().flatten();
            if g.key != *k || g.value != v {
                c.fail(
                    "blocks",
                    a.op,
                    format!("{who}: block {} holds {:?}={:?}, written was {:?}={:?}", a.index, B(g.key.clone()), g.value.clone().map(B), B(k.clone()), v.map(B)),
                );
                if g.key != *k {
                    c.fail("struct", a.op, format!("{who}: block {} describes a tree for key {:?} instead of {:?}", a.index, B(g.key.clone()), B(k.clone())));
                }
                intent = None;
            }
        }
        _ => {}
    }
    let Some((key, effect)) = intent else {
        // the model cannot follow: keep the sequence numbers in step and judge no more
        c.log.push_header(raw);
        c.lost = c.lost.min(a.index);
        return;
    };
    // (an emptied block reads as an entry with an empty key, which a delete may find)
    if !damaged && effect.is_none() && c.log.lookup(&key, a.index).is_none() {
        c.fail("blocks", a.op, format!("{who}: block {} deletes {:?}, which is absent", a.index, B(key.clone())));
    }
    if c.lost == u64::MAX || damaged {
        let want = c.log.predict(&key, effect.as_ref());
        if want.as_ref() != Some(&raw) {
            if damaged {
                c.lost = c.lost.min(a.index);
            } else {
                let w = want.as_ref().and_then(|w| model::decode_block(w));
                let msg = format!(
                    "{who}: block {} differs from the reference algorithm: nodes {} expected {}",
                    a.index,
                    shown(got.as_ref()),
                    shown(w.as_ref())
                );
                c.fail("bytes", a.op, msg);
            }
        }
    }
    c.log.push(raw, &key, effect);
    if !damaged && c.lost == u64::MAX {
        match c.log.check_version(a.index) {
            Ok((h, n)) => {
                c.max_height = c.max_height.max(h);
                c.max_live = c.max_live.max(n);
            }
            Err(e) => c.fail("struct", a.op, format!("{who}: {e}")),
        }
    }
    if let Some(r) = c.recs.get_mut(&a.op) {
        r.blocks.push(a.index);
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().take(60).map(|x| format!("{x:02x}")).collect()
}
fn shown(b: Option<&model::Blk>) -> String {
    match b {
        None => "none".into(),
        Some(b) => b.nodes.iter().map(|n| format!("{:?}->{:?}", n.keys, n.children)).collect::<Vec<_>>().join(" "),
    }
}

// ------------------------------------------------------------------ damage
pub fn damage(log: &Log, raw: &mut core::Sparse<Option<Vec<u8>>>, i: u64, d: &Damage) {
    let Some(slot) = raw.get_mut(i as usize) else { return };
    let Some(cur) = slot.clone() else { return };
    simrt::stat(dmg_name(d));
    let Some(mut b) = log.blks.get(i as usize).cloned().flatten() else {
        // the header
        match d {
            Damage::Missing => *slot = None,
            Damage::Garbage(g) => *slot = Some(g.0.clone()),
            _ => {}
        }
        return;
    };
    let pick = |n: u32, len: usize| n as usize % len.max(1);
    let mut odd = None;
    match d {
        Damage::Truncate(n) => {
            *slot = Some(cur[..(*n as usize % cur.len().max(1))].to_vec());
            return;
        }
        Damage::Garbage(g) => {
            *slot = Some(g.0.clone());
            return;
        }
        Damage::Flip(at, bit) => {
            let mut v = cur.clone();
            let n = v.len().max(1);
            v[*at as usize % n] ^= 1 << (bit % 8);
            *slot = Some(v);
            return;
        }
        Damage::Missing => {
            *slot = None;
            return;
        }
        Damage::Empty => {
            *slot = Some(vec![]);
            return;
        }
        Damage::NoNodes => b.nodes.clear(),
        Damage::DropLastNode => {
            b.nodes.pop();
        }
        Damage::ChildOffset { node, child, offset } => {
            let n = pick(*node, b.nodes.len());
            let l = b.nodes[n].children.len();
            if l > 0 {
                b.nodes[n].children[pick(*child, l)].1 = *offset;
            }
        }
        Damage::ChildSeq { node, child, seq } => {
            let n = pick(*node, b.nodes.len());
            let l = b.nodes[n].children.len();
            if l > 0 {
                b.nodes[n].children[pick(*child, l)].0 = *seq;
            }
        }
        Damage::ChildSelf { node, child } => {
            let n = pick(*node, b.nodes.len());
            let l = b.nodes[n].children.len();
            if l > 0 {
                b.nodes[n].children[pick(*child, l)] = (i, n as u64);
            }
        }
        Damage::OddChildren { node } => odd = Some(pick(*node, b.nodes.len())),
        Damage::ExtraChild { node } => {
            let n = pick(*node, b.nodes.len());
            let c = b.nodes[n].children.last().copied().unwrap_or((1, 0));
            b.nodes[n].children.push(c);
        }
        Damage::DropChild { node } => {
            let n = pick(*node, b.nodes.len());
            b.nodes[n].children.pop();
        }
        Damage::DropKeys { node } => {
            let n = pick(*node, b.nodes.len());
            if *node >= ALL_LEAVES {
                b.nodes.iter_mut().filter(|n| n.children.is_empty()).for_each(|n| n.keys.clear());
            } else {
                b.nodes[n].keys.clear();
            }
        }
        Damage::KeySeq { node, key, seq } => {
            let n = pick(*node, b.nodes.len());
            let l = b.nodes[n].keys.len();
            if l > 0 {
                b.nodes[n].keys[pick(*key, l)] = *seq;
            }
        }
        Damage::Graft { node, child, seq, offset } => {
            let n = pick(*node, b.nodes.len());
            let l = b.nodes[n].children.len();
            if l > 0 {
                b.nodes[n].children[pick(*child, l)] = (*seq, *offset);
            }
        }
        Damage::Repeat { node, times } => {
            let n = pick(*node, b.nodes.len());
            let (keys, children) = (b.nodes[n].keys.clone(), b.nodes[n].children.clone());
            for _ in 0..*times {
                b.nodes[n].keys.extend(&keys);
                b.nodes[n].children.extend(&children);
            }
        }
    }
    let index = match odd {
        None => model::encode_index(&b.nodes),
        Some(o) => {
            let mut out = vec![];
            for (k, n) in b.nodes.iter().enumerate() {
                let one = model::encode_index(std::slice::from_ref(n));
                if k != o {
                    out.extend(one);
                    continue;
                }
                let mut l = vec![];
                if !n.keys.is_empty() {
                    let mut p = vec![];
                    n.keys.iter().for_each(|x| model::put_varint(&mut p, *x));
                    model::put_bytes(&mut l, 1, &p);
                }
                let mut p = vec![];
                for (s, f) in &n.children {
                    model::put_varint(&mut p, *s);
                    model::put_varint(&mut p, *f);
                }
                model::put_varint(&mut p, 1);
                model::put_bytes(&mut l, 2, &p);
                model::put_bytes(&mut out, 1, &l);
            }
            out
        }
    };
    *slot = Some(model::encode_raw(&index, &b.key, b.value.as_deref()));
}
fn dmg_name(d: &Damage) -> &'static str {
    match d {
        Damage::Truncate(_) => "damage_truncate",
        Damage::Garbage(_) => "damage_garbage",
        Damage::Flip(..) => "damage_bit_flip",
        Damage::NoNodes => "damage_no_nodes",
        Damage::DropLastNode => "damage_drop_last_node",
        Damage::ChildOffset { .. } => "damage_child_offset",
        Damage::ChildSeq { .. } => "damage_child_seq",
        Damage::ChildSelf { .. } => "damage_child_cycle",
        Damage::OddChildren { .. } => "damage_odd_children",
        Damage::ExtraChild { .. } => "damage_extra_child",
        Damage::DropChild { .. } => "damage_drop_child",
        Damage::DropKeys { .. } => "damage_drop_keys",
        Damage::KeySeq { .. } => "damage_key_seq",
        Damage::Graft { .. } => "damage_graft",
        Damage::Repeat { .. } => "damage_repeat",
        Damage::Missing => "damage_missing",
        Damage::Empty => "damage_empty",
    }
}
/// Certainly not a protobuf message: a field runs past the end of its message.
fn broken(b: &[u8], depth: u32) -> bool {
    let mut p = 0usize;
    let varint = |p: &mut usize| -> Option<u64> {
        let mut x = 0u64;
        for i in 0..9 {
            let c = *b.get(*p)?;
            *p += 1;
            x |= ((c & 0x7f) as u64) << (7 * i);
            if c & 0x80 == 0 {
                return Some(x);
            }
        }
        Some(u64::MAX)
    };
    while p < b.len() {
        let Some(tag) = varint(&mut p) else { return true };
        if tag & 7 != 2 || tag > 0xffff_ffff || tag >> 3 == 0 {
            return false;
        }
        let Some(n) = varint(&mut p) else { return true };
        if n > (b.len() - p) as u64 {
            return n < 1 << 40;
        }
        let s = &b[p..p + n as usize];
        p += n as usize;
        let inner = match depth {
            0 => tag >> 3 == 1,
            1 => tag >> 3 == 1,
            _ => false,
        };
        if inner && broken(s, depth + 1) {
            return true;
        }
        if depth == 2 && (tag >> 3 == 1 || tag >> 3 == 2) && s.last().map(|c| c & 0x80 != 0).unwrap_or(false) {
            return true;
        }
    }
    false
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Judge {
    Correct,
    CorrectOrErr,
    MustErr,
    Any,
}
struct Dm<'a> {
    map: BTreeMap<u64, (Damage, bool)>,
    log: &'a Log,
    lost: u64,
    disk_len: u64,
}
impl<'a> Dm<'a> {
    fn new(c: &'a Ctx) -> Self {
        let base = preload(&c.plan);
        let mut raw = base.raw.map(|b| Some(b.clone()));
        let mut map = BTreeMap::new();
        for (i, d) in &c.plan.damage {
            // statistics were counted when the damage was done
            damage_quiet(&base, &mut raw, *i, d);
            let bad = match raw.get(*i as usize) {
                Some(None) => true,
                Some(Some(b)) => broken(b, 0),
                None => continue,
            };
            if raw[*i as usize].as_ref() == base.raw.get(*i as usize) {
                continue;
            }
            map.insert(*i, (d.clone(), bad));
        }
        Dm { map, log: &c.log, lost: c.lost, disk_len: base.len() }
    }
    /// What a search for `key` in version `v` may do.
    fn judge(&self, key: &[u8], v: u64) -> Judge {
        if v > self.lost {
            return Judge::Any;
        }
        let (mut any, mut must, mut dirty) = (false, false, false);
        for (seq, off, idx, found) in self.log.path(key, v) {
            if let Some((d, bad)) = self.map.get(&seq) {
                let nodes = self.log.blks[seq as usize].as_ref().map(|b| b.nodes.clone()).unwrap_or_default();
                let nn = nodes.len().max(1);
                let here = |n: u32| n as usize % nn == off as usize;
                let follows = |n: u32, ch: u32| {
                    let l = nodes[off as usize].children.len();
                    here(n) && l > 0 && !found && ch as usize % l == idx
                };
                match d {
                    _ if *bad => must = true,
                    Damage::Truncate(_) | Damage::Garbage(_) | Damage::Flip(..) | Damage::Graft { .. } | Damage::Repeat { .. } => any = true,
                    Damage::Empty | Damage::NoNodes | Damage::Missing => must = true,
                    Damage::DropLastNode => {
                        if off as usize + 1 == nn {
                            must = true
                        } else {
                            dirty = true
                        }
                    }
                    Damage::ChildOffset { node, child, offset } => {
                        let l = nodes[*node as usize % nn].children.len();
                        if l > 0 {
                            let t = nodes[*node as usize % nn].children[*child as usize % l].0;
                            let tn = self.log.blks.get(t as usize).and_then(|b| b.as_ref()).map(|b| b.nodes.len()).unwrap_or(0);
                            if (*offset as usize) < tn {
                                any = true
                            } else if follows(*node, *child) {
                                must = true
                            } else {
                                dirty = true
                            }
                        }
                    }
                    Damage::ChildSeq { node, child, seq: s } => {
                        if *s != 0 && *s <= seq {
                            any = true
                        } else if follows(*node, *child) {
                            must = true
                        } else {
                            dirty = true
                        }
                    }
                    Damage::ChildSelf { node, child } => {
                        if follows(*node, *child) {
                            must = true
                        } else {
                            dirty = true
                        }
                    }
                    Damage::OddChildren { .. } | Damage::ExtraChild { .. } | Damage::DropChild { .. } => dirty = true,
                    Damage::DropKeys { node } => {
                        if *node >= ALL_LEAVES || nodes[*node as usize % nn].children.is_empty() {
                            any = true
                        } else {
                            dirty = true
                        }
                    }
                    Damage::KeySeq { seq: s, .. } => {
                        if *s != 0 && *s <= seq {
                            any = true
                        } else {
                            dirty = true
                        }
                    }
                }
            }
            let keys = self.log.blks[seq as usize].as_ref().and_then(|b| b.nodes.get(off as usize)).map(|n| n.keys.clone()).unwrap_or_default();
            for (ki, k) in keys.iter().enumerate() {
                let Some((d, bad)) = self.map.get(k) else { continue };
                match d {
                    _ if *bad => {
                        if found && ki == idx {
                            must = true
                        } else {
                            dirty = true
                        }
                    }
                    Damage::Truncate(_) | Damage::Garbage(_) | Damage::Flip(..) | Damage::Empty => any = true,
                    Damage::Missing => must |= found && ki == idx,
                    _ => dirty = true,
                }
            }
        }
        if any {
            Judge::Any
        } else if must {
            Judge::MustErr
        } else if dirty {
            Judge::CorrectOrErr
        } else {
            Judge::Correct
        }
    }
    /// What reading the whole of version `v` may do.
    fn whole(&self, v: u64) -> Judge {
        if v > self.lost {
            return Judge::Any;
        }
        let mut out = Judge::Correct;
        for b in self.log.reachable(v) {
            if let Some((d, bad)) = self.map.get(&b) {
                out = Judge::CorrectOrErr;
                let nodes = self.log.blks[b as usize].as_ref().map(|b| b.nodes.clone()).unwrap_or_default();
                let unsure = match d {
                    _ if *bad => false,
                    Damage::Truncate(_) | Damage::Garbage(_) | Damage::Flip(..) | Damage::Empty => true,
                    Damage::Graft { .. } | Damage::Repeat { .. } => true,
                    Damage::ChildOffset { offset, .. } => *offset < 40,
                    Damage::ChildSeq { seq, .. } | Damage::KeySeq { seq, .. } => *seq != 0 && *seq <= b,
                    Damage::DropKeys { node } => *node >= ALL_LEAVES || nodes[*node as usize % nodes.len().max(1)].children.is_empty(),
                    _ => false,
                };
                if unsure {
                    return Judge::Any;
                }
            }
        }
        out
    }
}
fn damage_quiet(log: &Log, raw: &mut core::Sparse<Option<Vec<u8>>>, i: u64, d: &Damage) {
    damage(log, raw, i, d);
}

// ------------------------------------------------------------------ after the run
fn faults_of(op: u32) -> Vec<core::Fault> {
    core::with(|s| s.faults.get(&op).cloned().unwrap_or_default())
}
fn show_kv(k: &Option<Kv>) -> String {
    match k {
        None => "absent".into(),
        Some(k) => format!("seq {} {:?}", k.seq, k.value.clone().map(B)),
    }
}

pub fn check(ctx: &C) {
    let mut c = ctx.borrow_mut();
    let recs: Vec<Rec> = c.recs.values().cloned().collect();
    let total = c.log.len();
    let mut out: Vec<(&'static str, u32, String)> = vec![];
    if !c.plan.damage.is_empty() {
        let dm = Dm::new(&c);
        for r in &recs {
            if let Err((cl, m)) = judge_damaged(&c, &dm, r) {
                out.push((cl, r.op, m));
            }
        }
    } else if c.lost == u64::MAX {
        for r in &recs {
            if let Some(m) = block_count(r) {
                out.push(("blocks", r.op, m));
            }
            if let Err((cl, m)) = reads(&c, r, total) {
                out.push((cl, r.op, m));
            }
            if let Err((cl, m)) = judge(&c, r, total) {
                out.push((cl, r.op, m));
            }
        }
    }
    let (spins, timers) = simrt::with(|w| (w.spins.clone(), w.timers.clone()));
    let most = spins.values().max().copied().unwrap_or(0);
    simrt::stat_add("most_idle_polls", most as u64);
    for (op, n) in spins.into_iter().filter(|(_, n)| *n > 5) {
        out.push(("spin", op, format!("asked to be polled {n} times in a row while nothing it waits for was ready")));
    }
    for (op, n) in timers.into_iter().filter(|(_, n)| *n > 50) {
        out.push(("spin", op, format!("waited for {n} timers")));
    }
    for (cl, op, m) in out {
        if !c.recs.contains_key(&op) {
            c.fail(cl, op, m);
            continue;
        }
        let name = c.recs[&op].kind.name();
        let rec = &c.recs[&op];
        let h = if rec.h > 0 { format!(" on sub {}", rec.h - 1) } else { String::new() };
        let n = if rec.node > 1 { format!(" on replica {}", rec.node) } else { String::new() };
        let f = if rec.finale { " after faults stopped" } else { "" };
        let msg = format!("#{op} {name}({:?}){h}{n}{f}: {m}", B(rec.key.clone()));
        c.fail(cl, op, msg);
    }
}

/// One block per write that reports an effect, none for one that reports none.
fn block_count(r: &Rec) -> Option<String> {
    let n = match (&r.out, &r.kind) {
        _ if r.node > 1 => return None,
        (_, Kind::Incr) => return None,
        (Outcome::Put(_, Some(_)), _) | (Outcome::Del(Some(_)), _) | (Outcome::CasDel(Some((true, _))), _) => 1,
        (Outcome::Put(_, None), _) | (Outcome::Del(None), _) | (Outcome::CasDel(None | Some((false, _))), _) => 0,
        _ => return None,
    };
    (r.blocks.len() != n).then(|| format!("returned {:?}, wrote blocks {:?}", r.out, r.blocks))
}

type R = Result<(), (&'static str, String)>;
fn bad<T>(c: &'static str, m: impl Into<String>) -> Result<T, (&'static str, String)> {
    Err((c, m.into()))
}

fn window(c: &Ctx, r: &Rec, total: u64) -> (u64, u64) {
    let _ = c;
    let hi = if r.ret_len == u64::MAX { total } else { r.ret_len };
    (r.inv_len, hi.min(total.max(r.inv_len)))
}

/// May this operation have failed with this error?
fn excused(c: &Ctx, r: &Rec, kind: &str, lo: u64, hi: u64) -> bool {
    if kind.starts_with("Malformed") || kind.starts_with("Unexpected") || kind == "Rejected" {
        return false;
    }
    if !faults_of(r.op).is_empty() {
        return true;
    }
    match &r.kind {
        Kind::Header(_) if kind == "HeaderAlreadyExists" => hi >= 1,
        Kind::Traverse { .. } | Kind::Print if kind == "NoRootError" => lo <= 1,
        Kind::Print if kind == "KeyFromUtf8Error" => (lo.max(2)..=hi).any(|v| printed(c, v).is_none()),
        _ => false,
    }
}
/// Class of a wrong read.
fn rd(r: &Rec, cl: &'static str) -> &'static str {
    if r.node > 1 {
        "replica"
    } else {
        cl
    }
}

fn judge(c: &Ctx, r: &Rec, total: u64) -> R {
    let (lo, hi) = window(c, r, total);
    if lo > hi {
        return bad("version", format!("the log shrank from {lo} to {hi} blocks"));
    }
    let some = |f: &dyn Fn(u64) -> bool| (lo..=hi).any(|v| f(v));
    let look = |v: u64| c.log.lookup(&r.key, v);
    let seq_at = |v: u64| look(v).map(|k| k.seq);
    if matches!(r.kind, Kind::CasPut(..) | Kind::CasDel(_) | Kind::Incr) {
        cas_calls(c, r, lo, hi)?;
    }
    if r.blocks.len() > 1 {
        return bad("blocks", format!("appended blocks {:?}", r.blocks));
    }
    match (&r.out, &r.kind) {
        (Outcome::Panicked, _) => Ok(()),
        (Outcome::Err(kind, msg), _) => {
            if kind.starts_with("Unexpected") {
                return bad("panic", format!("unexpected error: {msg}"));
            }
            if !excused(c, r, kind, lo, hi) {
                return bad(rd(r, "err"), format!("failed without a fault: {kind}: {msg}"));
            }
            Ok(())
        }
        (Outcome::Got(g), Kind::Get) => {
            let g = g.as_ref().map(|(s, v)| Kv { seq: *s, key: r.key.clone(), value: v.clone() });
            if some(&|v| look(v) == g) {
                return Ok(());
            }
            bad(rd(r, "get"), format!("returned {}; in the log: {} (versions {lo} to {hi})", show_kv(&g), hist(c, r, lo, hi)))
        }
        (Outcome::Put(old, Some(new)), _) => {
            if r.node > 1 {
                return bad("replica", format!("a write on a replica succeeded with block {new}"));
            }
            if r.blocks != [*new] {
                return bad("put", format!("reported block {new}, wrote {:?}", r.blocks));
            }
            if *old != seq_at(*new) {
                return bad("put", format!("reported old block {old:?}, it was {:?}", seq_at(*new)));
            }
            Ok(())
        }
        (Outcome::Put(old, None), _) => {
            // refused
            if !r.blocks.is_empty() {
                return bad("cas", format!("was refused but wrote {:?}", r.blocks));
            }
            let Some(l) = r.calls.last() else {
                return bad("cas", "was refused without asking");
            };
            if l.ret || l.old.as_ref().map(|o| o.seq) != *old {
                return bad("cas", format!("was refused with old {old:?}, the condition saw {} and said {}", show_kv(&l.old), l.ret));
            }
            Ok(())
        }
        (Outcome::Del(None), _) => {
            if !r.blocks.is_empty() {
                return bad("del", format!("reported nothing deleted, but wrote {:?}", r.blocks));
            }
            if !some(&|v| look(v).is_none()) {
                return bad(rd(r, "del"), format!("reported an absent key; in the log: {}", hist(c, r, lo, hi)));
            }
            Ok(())
        }
        (Outcome::Del(Some(old)), _) => {
            if r.node > 1 {
                return bad("replica", "a delete on a replica succeeded");
            }
            let [b] = r.blocks[..] else {
                return bad("del", format!("reported {old} deleted, but wrote {:?}", r.blocks));
            };
            if seq_at(b) != Some(*old) {
                return bad("del", format!("reported block {old} deleted, it was {:?}", seq_at(b)));
            }
            Ok(())
        }
        (Outcome::CasDel(None), _) => {
            if !r.blocks.is_empty() || !r.calls.is_empty() {
                return bad("cas", format!("reported an absent key, but asked {} times and wrote {:?}", r.calls.len(), r.blocks));
            }
            if !some(&|v| look(v).is_none()) {
                return bad(rd(r, "cas"), format!("reported an absent key; in the log: {}", hist(c, r, lo, hi)));
            }
            Ok(())
        }
        (Outcome::CasDel(Some((done, old))), _) => {
            let Some(l) = r.calls.last() else {
                return bad("cas", "completed without asking");
            };
            if l.ret != *done || l.old.as_ref().map(|o| o.seq) != Some(*old) {
                return bad("cas", format!("returned ({done}, {old}), the condition saw {} and said {}", show_kv(&l.old), l.ret));
            }
            if *done != (r.blocks.len() == 1) {
                return bad("cas", format!("returned {done}, wrote {:?}", r.blocks));
            }
            if *done && r.node > 1 {
                return bad("replica", "a delete on a replica succeeded");
            }
            Ok(())
        }
        (Outcome::Version(n), _) => {
            if *n < lo || *n > hi {
                return bad(rd(r, "version"), format!("returned {n}, the log had {lo} to {hi} blocks"));
            }
            Ok(())
        }
        (Outcome::Header(len), _) => {
            if !r.header || *len != 1 {
                return bad("header", format!("reported length {len}, wrote a header: {}", r.header));
            }
            Ok(())
        }
        (Outcome::Number(h), _) => {
            if !some(&|v| c.log.height(v) as u64 == *h) {
                return bad(rd(r, "height"), format!("returned {h}, the tree's height was {}", c.log.height(hi)));
            }
            Ok(())
        }
        (Outcome::Text(t), _) => {
            if some(&|v| printed(c, v).as_ref() == Some(t)) {
                return Ok(());
            }
            bad(rd(r, "print"), format!("returned {t:?}; the tree of version {hi} prints as {:?}", printed(c, hi)))
        }
        (Outcome::Traversed, Kind::Traverse { conf, limit, .. }) => traversal(c, r, conf, *limit, false),
        (Outcome::Cancelled | Outcome::Crashed | Outcome::Pending, Kind::Traverse { conf, limit, .. }) => traversal(c, r, conf, *limit, true),
        (Outcome::Cancelled | Outcome::Crashed | Outcome::Pending, _) => Ok(()),
        (Outcome::Unit, _) => Ok(()),
        (o, k) => bad("harness", format!("{k:?} cannot return {o:?}")),
    }
}
/// The keys in order, each behind as many tabs as nodes are above its own; None: not text.
fn printed(c: &Ctx, v: u64) -> Option<String> {
    if v <= 1 {
        return None;
    }
    let mut out = String::new();
    for k in c.log.range(v, |_| true) {
        let depth = c.log.path(&k.key, v).len().saturating_sub(1);
        out.push_str(&"\t".repeat(depth));
        out.push_str(std::str::from_utf8(&k.key).ok()?);
        out.push('\n');
    }
    Some(out)
}
fn hist(c: &Ctx, r: &Rec, lo: u64, hi: u64) -> String {
    let mut out = vec![];
    let mut last = None;
    for v in lo..=hi {
        let s = show_kv(&c.log.lookup(&r.key, v));
        if last.as_ref() != Some(&s) {
            out.push(s.clone());
            last = Some(s);
        }
    }
    out.join(", then ")
}

fn cas_calls(c: &Ctx, r: &Rec, lo: u64, hi: u64) -> R {
    let incr = r.kind == Kind::Incr;
    let max = if incr { r.attempts as usize } else { 1 };
    if r.calls.len() > max {
        return bad("cas", format!("the condition was asked {} times", r.calls.len()));
    }
    let ok = matches!(r.out, Outcome::Put(..));
    if ok && r.calls.len() != max {
        return bad("cas", format!("the condition was asked {} times, not {max}", r.calls.len()));
    }
    for (i, call) in r.calls.iter().enumerate() {
        let last = i + 1 == r.calls.len();
        let old_ok = |v: u64| c.log.lookup(&r.key, v) == call.old;
        if !incr {
            if let (Kind::CasPut(val, _), Some(n)) = (&r.kind, &call.new) {
                if n.key != r.key || n.value != val.clone().map(|b| b.0) {
                    return bad("cas", format!("the condition was shown the new entry {:?}={:?}", B(n.key.clone()), n.value.clone().map(B)));
                }
            }
        }
        if last && r.blocks.len() == 1 {
            // the write took effect: the condition must have seen the entry it replaced
            let b = r.blocks[0];
            if !old_ok(b) {
                return bad("cas", format!("the condition saw {}, but block {b} replaced {}", show_kv(&call.old), show_kv(&c.log.lookup(&r.key, b))));
            }
            if let Some(n) = &call.new {
                if n.seq != b {
                    return bad("cas", format!("the condition was shown block {}, the write became {b}", n.seq));
                }
            }
        } else {
            // on a replica the write fails anyway, whatever block it would have become
            let fits = (lo..=hi).any(|v| old_ok(v) && (r.node > 1 || call.new.as_ref().map(|n| n.seq == v.max(1)).unwrap_or(true)));
            if !fits {
                return bad(
                    rd(r, "cas"),
                    format!("the condition saw {} (next block {:?}), which no version {lo} to {hi} had: {}", show_kv(&call.old), call.new.as_ref().map(|n| n.seq), hist(c, r, lo, hi)),
                );
            }
        }
    }
    Ok(())
}

fn within(conf: &Conf, k: &[u8]) -> bool {
    (match &conf.min {
        Bound::Open | Bound::Inf | Bound::OpenExc | Bound::InfExc => true,
        Bound::Never => false,
        Bound::Inc(b) => k >= &b.0[..],
        Bound::Exc(b) => k > &b.0[..],
    }) && (match &conf.max {
        Bound::Open | Bound::Inf | Bound::OpenExc | Bound::InfExc => true,
        Bound::Never => false,
        Bound::Inc(b) => k <= &b.0[..],
        Bound::Exc(b) => k < &b.0[..],
    })
}
fn expected(c: &Ctx, r: &Rec, conf: &Conf, v: u64) -> Vec<Kv> {
    let p = c.plan.key_in(r.h, b"");
    let mut out: Vec<Kv> = c
        .log
        .range(v, |k| k.starts_with(&p) && within(conf, &k[p.len()..]))
        .into_iter()
        .map(|mut k| {
            k.key.drain(..p.len());
            k
        })
        .collect();
    if conf.rev {
        out.reverse();
    }
    out
}
/// Does this stream fit the contents of version `v`?
fn fits(items: &[Result<Kv, String>], exp: &[Kv], partial: bool) -> Result<(), String> {
    let at = items.iter().position(|i| i.is_err()).unwrap_or(items.len());
    for (i, it) in items[..at].iter().enumerate() {
        let it = it.as_ref().unwrap();
        match exp.get(i) {
            Some(e) if e == it => {}
            Some(e) => return Err(format!("item {i} is {:?} ({}), expected {:?} ({})", B(it.key.clone()), show_kv(&Some(it.clone())), B(e.key.clone()), show_kv(&Some(e.clone())))),
            None => return Err(format!("item {i} is {:?}, expected the end", B(it.key.clone()))),
        }
    }
    if at == items.len() {
        if !partial && items.len() != exp.len() {
            return Err(format!("ended after {} items, expected {} (next {:?})", items.len(), exp.len(), B(exp[items.len()].key.clone())));
        }
        return Ok(());
    }
    let mut j = at;
    for it in items[at..].iter().flatten() {
        match exp[j.min(exp.len())..].iter().position(|e| e == it) {
            Some(k) => j += k + 1,
            None => return Err(format!("after an error, item {:?} ({}) is wrong or out of order", B(it.key.clone()), show_kv(&Some(it.clone())))),
        }
    }
    Ok(())
}

fn traversal(c: &Ctx, r: &Rec, conf: &Conf, limit: Option<u32>, cut: bool) -> R {
    if let Some(e) = &r.trav.conf_err {
        if !crate::gen::possible(conf) {
            return Ok(());
        }
        return bad("trav", format!("the configuration was rejected: {e}"));
    }
    let Some((lo, hi)) = r.trav.created else { return Ok(()) };
    if r.trav.runaway {
        return bad("trav", format!("the traversal does not end: {} items", r.trav.items.len()));
    }
    let errs = r.trav.items.iter().filter(|i| i.is_err()).count();
    if errs > 0 && faults_of(r.op).is_empty() {
        let e = r.trav.items.iter().find_map(|i| i.as_ref().err()).unwrap();
        return bad(rd(r, "trav"), format!("yielded an error without a fault: {e}"));
    }
    let partial = !r.trav.ended;
    if partial && !cut && limit.is_none() {
        return bad("harness", "traversal neither ended nor limited");
    }
    let mut why = String::new();
    for v in (lo..=hi).rev() {
        match fits(&r.trav.items, &expected(c, r, conf, v), partial) {
            Ok(()) => return Ok(()),
            Err(e) if why.is_empty() => why = e,
            _ => {}
        }
    }
    bad(rd(r, "trav"), format!("{conf:?}, created at version {lo} to {hi}: {why}"))
}

/// Storage is only asked for blocks the operation needs in some version of its window.
fn reads(c: &Ctx, r: &Rec, total: u64) -> R {
    let Some(mut left) = core::with(|s| s.reads.get(&r.op).cloned()) else { return Ok(()) };
    let (lo, hi) = r.trav.created.unwrap_or_else(|| window(c, r, total));
    let asked = left.len();
    for v in (lo..=hi).rev() {
        let mut may = BTreeSet::new();
        match &r.kind {
            Kind::Get | Kind::Put(_) | Kind::CasPut(..) | Kind::Incr => c.log.way(&r.key, v, false, &mut may),
            Kind::Del | Kind::CasDel(_) => c.log.way(&r.key, v, true, &mut may),
            Kind::Version | Kind::Header(_) => {}
            Kind::Traverse { conf, .. } => {
                // (behind a key that cannot be read the range may seem to go on)
                if !crate::gen::possible(conf) || r.trav.items.iter().any(|i| i.is_err()) {
                    return Ok(());
                }
                let p = c.plan.key_in(r.h, b"");
                let full = |b: &[u8]| [&p[..], b].concat();
                let mut from = match &conf.min {
                    Bound::Inc(b) | Bound::Exc(b) => full(&b.0),
                    _ => p.clone(),
                };
                let mut to = match &conf.max {
                    Bound::Inc(b) | Bound::Exc(b) => Some(full(&b.0)),
                    _ => after(&p),
                };
                // no further than one entry ahead of what was asked for
                if !r.trav.ended {
                    if let Some(next) = expected(c, r, conf, v).get(r.trav.items.len()) {
                        let next = full(&next.key);
                        if conf.rev {
                            from = next;
                        } else {
                            to = Some(next);
                        }
                    }
                }
                c.log.between(&from, to.as_deref(), v, &mut may);
            }
            _ => return Ok(()),
        }
        left.retain(|b| !may.contains(b));
        if left.is_empty() {
            return Ok(());
        }
    }
    bad("reads", format!("asked storage for {asked} blocks, of which {left:?} have no part in it in versions {lo} to {hi}"))
}
/// The first key after all keys that start with `p`.
fn after(p: &[u8]) -> Option<Vec<u8>> {
    let n = p.iter().rposition(|b| *b != 0xff)?;
    let mut out = p[..=n].to_vec();
    out[n] += 1;
    Some(out)
}

// ------------------------------------------------------------------ damaged logs
fn judge_damaged(c: &Ctx, dm: &Dm, r: &Rec) -> R {
    let total = c.log.len();
    let (lo, hi) = window(c, r, total);
    let look = |v: u64| c.log.lookup(&r.key, v);
    let _ = dm.disk_len;
    let injected = faults_of(r.op).iter().any(|f| !matches!(f, core::Fault::Missing));
    match (&r.out, &r.kind) {
        (Outcome::Got(g), Kind::Get) => {
            let g = g.as_ref().map(|(s, v)| Kv { seq: *s, key: r.key.clone(), value: v.clone() });
            let ok = (lo..=hi).any(|v| match dm.judge(&r.key, v) {
                Judge::Any => true,
                Judge::MustErr => false,
                _ => look(v) == g,
            });
            if !ok {
                let j: Vec<Judge> = (lo..=hi).map(|v| dm.judge(&r.key, v)).collect();
                let m = if j.contains(&Judge::MustErr) { "a block it needs is unusable" } else { "wrong" };
                return bad("damage", format!("returned {} ({m}); undamaged: {}", show_kv(&g), hist(c, r, lo, hi)));
            }
            Ok(())
        }
        (Outcome::Put(old, Some(new)), Kind::Put(_)) => {
            if r.blocks != [*new] {
                return if *new > dm.lost { Ok(()) } else { bad("damage", format!("reported block {new}, wrote {:?}", r.blocks)) };
            }
            match dm.judge(&r.key, *new) {
                Judge::Any => Ok(()),
                Judge::MustErr => bad("damage", "succeeded although a block on its path is unusable"),
                _ if *old != look(*new).map(|k| k.seq) => bad("damage", format!("reported old block {old:?}, it was {:?}", look(*new).map(|k| k.seq))),
                _ => Ok(()),
            }
        }
        (Outcome::Del(old), Kind::Del) => {
            let ok = (lo..=hi).any(|v| match dm.judge(&r.key, v) {
                Judge::Any => true,
                Judge::MustErr => false,
                _ => look(v).map(|k| k.seq) == *old,
            });
            if !ok {
                return bad("damage", format!("returned {old:?}; undamaged: {}", hist(c, r, lo, hi)));
            }
            Ok(())
        }
        (Outcome::Err(kind, msg), k) => {
            if kind.starts_with("Unexpected") || kind == "MalformedCallback" || kind == "Rejected" {
                return bad("panic", msg.clone());
            }
            let all_clean = match k {
                Kind::Get | Kind::Put(_) => (lo..=hi).all(|v| dm.judge(&r.key, v) == Judge::Correct),
                Kind::Height => (lo..=hi).all(|v| dm.whole(v) == Judge::Correct),
                Kind::Traverse { .. } => lo > 1 && (lo..=hi).all(|v| dm.whole(v) == Judge::Correct),
                Kind::Version => true,
                _ => false,
            };
            if all_clean && !injected {
                return bad("damage", format!("failed although no damaged block is involved: {kind}: {msg}"));
            }
            Ok(())
        }
        (Outcome::Version(n), _) => {
            if *n < lo || *n > hi {
                return bad("damage", format!("version {n}, the log has {lo} to {hi} blocks"));
            }
            Ok(())
        }
        (Outcome::Number(h), _) => {
            let ok = (lo..=hi).any(|v| dm.whole(v) == Judge::Any || c.log.height(v) as u64 == *h);
            if !ok {
                return bad("damage", format!("height {h}, the tree's height is {}", c.log.height(hi)));
            }
            Ok(())
        }
        (Outcome::Text(t), Kind::Print) => {
            let ok = (lo.max(2)..=hi).any(|v| dm.whole(v) == Judge::Any || printed(c, v).as_ref() == Some(t));
            if !ok {
                return bad("damage", format!("returned {t:?}; the tree of version {hi} prints as {:?}", printed(c, hi)));
            }
            Ok(())
        }
        (Outcome::Traversed, Kind::Traverse { conf, limit, .. }) => {
            let Some((lo, hi)) = r.trav.created else { return Ok(()) };
            let mut why = String::new();
            for v in lo..=hi {
                let j = dm.whole(v);
                if j == Judge::Any {
                    return Ok(());
                }
                if r.trav.runaway {
                    why = format!("the traversal does not end: {} items", r.trav.items.len());
                    continue;
                }
                let errs = r.trav.items.iter().any(|i| i.is_err());
                if errs && j == Judge::Correct && !injected {
                    why = "yielded an error although no damaged block is involved".into();
                    continue;
                }
                match fits(&r.trav.items, &expected(c, r, conf, v), !r.trav.ended && limit.is_some()) {
                    Ok(()) => return Ok(()),
                    Err(e) => why = e,
                }
            }
            bad("damage", format!("{conf:?}: {why}"))
        }
        _ => Ok(()),
    }
}
