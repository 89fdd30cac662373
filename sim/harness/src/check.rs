//! The search: worker processes, judging, minimising, replay files, evidence.
use crate::gen;
use crate::plan::*;
use crate::run::{self, Rec, RunOut, Viol};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

pub const PROPS: [&str; 20] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20", "C21", "C22"];

/// Silence after which a run counts as hanging inside one step.
const HANG: Duration = Duration::from_secs(45);

pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    let p: u64 = prop[1..].parse().unwrap_or(0);
    simrt::mix(simrt::mix(seed.wrapping_mul(1000).wrapping_add(p), 0x5eed), i)
}

/// Does this violation contradict the statement of the property?
fn accepts(prop: &str, class: &str, kind: Option<&Kind>, h: u8) -> bool {
    if class == "harness" {
        return false;
    }
    let trav = matches!(kind, Some(Kind::Traverse { .. }));
    let cas = matches!(kind, Some(Kind::CasPut(..) | Kind::CasDel(_) | Kind::Incr));
    let c = |l: &[&str]| l.contains(&class);
    match prop {
        "C01" => c(&["get", "put", "del", "cas", "err", "open", "panic", "blocks", "version", "header"]) && !trav || c(&["trav"]),
        "C02" => c(&["get", "put", "del", "cas", "err", "open", "panic", "blocks", "version", "header", "deadlock", "livelock"]) && !trav || c(&["trav"]),
        "C03" => c(&["get", "put", "del", "cas", "err", "panic", "blocks", "version", "header", "trav"]),
        "C04" => c(&["cas"]) || cas && c(&["put", "del", "get", "err", "blocks", "panic"]),
        "C05" => c(&["struct"]),
        "C06" => c(&["bytes", "get", "blocks", "trav", "put", "del", "err", "panic", "header"]),
        "C07" => c(&["blocks", "header", "version", "open"]),
        "C08" => c(&["trav"]) || trav && c(&["err", "panic", "livelock"]),
        "C09" => trav && c(&["trav", "damage", "err", "panic", "livelock", "deadlock"]),
        "C10" => h > 0 && c(&["get", "put", "del", "cas", "err", "panic", "blocks", "trav"]),
        "C11" => c(&["replica", "converge"]) || c(&["get", "err", "version", "trav", "blocks", "panic", "deadlock", "livelock"]),
        "C12" => c(&["damage", "panic", "livelock", "deadlock"]),
        "C13" => c(&["get", "put", "del", "cas", "err", "panic", "deadlock", "livelock", "blocks", "version", "header", "trav", "open"]),
        "C14" => c(&["deadlock", "livelock", "panic"]),
        "C15" => c(&["memory", "get", "damage", "err", "callback", "deadlock", "livelock", "panic", "open"]),
        "C16" => c(&["damage", "memory", "get", "put", "del", "err", "version", "panic", "deadlock", "livelock", "open", "blocks"]),
        "C19" => c(&["height", "print"]) || matches!(kind, Some(Kind::Height | Kind::Print | Kind::Debug)) && c(&["damage", "err", "panic", "deadlock", "livelock"]),
        "C20" => c(&["release"]),
        "C21" => c(&["reads"]),
        "C22" => c(&["spin"]),
        _ => false,
    }
}
fn find_op(plan: &Plan, op: u32) -> Option<&Op> {
    plan.clients.iter().flat_map(|c| c.ops.iter()).chain(plan.finale.iter().map(|f| &f.1)).find(|o| o.id == op)
}
fn accepted<'a>(plan: &Plan, viol: &'a [Viol]) -> Vec<&'a Viol> {
    viol.iter()
        .filter(|v| {
            let o = find_op(plan, v.op);
            accepts(&plan.prop, v.class, o.map(|o| &o.kind), o.map(|o| o.h).unwrap_or(0))
        })
        .collect()
}

fn enc_trace(t: &simrt::Trace) -> Value {
    Value::Array(t.iter().map(|((k, o, i), v)| json!([(*k as char).to_string(), o, i, v])).collect())
}
fn dec_trace(v: &Value) -> simrt::Trace {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|e| {
                    let k = e[0].as_str().unwrap_or("S").as_bytes()[0];
                    ((k, e[1].as_u64().unwrap_or(0) as u32, e[2].as_u64().unwrap_or(0) as u32), e[3].as_u64().unwrap_or(0) as u32)
                })
                .collect()
        })
        .unwrap_or_default()
}

// ------------------------------------------------------------------ worker
/// Did anything happen in this run that exercises the property?
fn nontrivial(plan: &Plan, o: &RunOut) -> bool {
    let st = |k: &str| o.sum.stats.get(k).copied().unwrap_or(0);
    let faults: u64 = o.sum.stats.iter().filter(|(k, _)| k.starts_with("fault_")).map(|x| *x.1).sum();
    let writes = o.recs.values().filter(|r| !r.blocks.is_empty()).count();
    let overlap = o.recs.values().any(|a| {
        !a.finale && o.recs.values().any(|b| b.op != a.op && !b.finale && b.inv_seq < a.ret_seq && a.inv_seq < b.ret_seq && (a.kind.is_write() || b.kind.is_write()))
    });
    let items = |r: &&Rec| r.trav.items.len();
    match &plan.prop[..] {
        "C01" => o.sum.stats.contains_key("restarts") && writes > 0,
        "C02" => faults > 0 && writes > 0 || plan.readonly,
        "C03" => overlap,
        "C04" => o.recs.values().any(|r| !r.calls.is_empty()) && overlap,
        "C05" | "C06" => writes > 3 && o.max_height >= 1,
        "C07" => writes > 0 && (faults > 0 || overlap || plan.preload.is_empty()),
        "C08" => o.recs.values().map(|r| items(&r)).sum::<usize>() > 5,
        "C09" => o.recs.values().any(|r| matches!(r.kind, Kind::Traverse { .. }) && r.trav.items.iter().any(|i| i.is_err())),
        "C10" => o.recs.values().any(|r| r.h > 0 && (!r.blocks.is_empty() || items(&r) > 0)),
        "C11" => st("links") > 0 && writes > 0,
        "C12" => !plan.damage.is_empty(),
        "C13" => st("cancelled_ops") > 0,
        "C14" => o.sum.switches > 5 && overlap,
        "C15" => o.recs.len() > 3,
        "C16" => writes > 0,
        "C21" => st("core_gets") > 3,
        "C22" => st("delayed_io") > 3,
        "C20" => st("cores_opened") > 0 && o.recs.len() > 3,
        "C19" => writes > 0 && o.recs.values().any(|r| matches!(r.out, crate::run::Outcome::Number(_) | crate::run::Outcome::Text(_))),
        _ => true,
    }
}

fn resident_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 >> 20
}

pub fn worker(a: &[String]) -> i32 {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, first, step, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    let t0 = Instant::now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut i = first;
    let mut done = 0u64;
    while i < count && t0.elapsed() < Duration::from_secs(secs) {
        let plan = gen::plan(prop, run_seed(prop, seed, i));
        writeln!(out, "S {i}").ok();
        out.flush().ok();
        let o = run::run(&plan, None, false);
        let bad = accepted(&plan, &o.viol);
        if let Some(v) = bad.first() {
            writeln!(out, "V {}", json!({"i": i, "class": v.class, "op": v.op, "msg": v.msg})).ok();
        }
        for v in o.viol.iter().filter(|v| v.class == "harness") {
            writeln!(out, "X {}", json!({"i": i, "msg": v.msg})).ok();
        }
        for v in &o.viol {
            *stats.entry(format!("seen_{}", v.class)).or_default() += 1;
        }
        for (k, v) in &o.sum.stats {
            *stats.entry(k.to_string()).or_default() += v;
        }
        for r in o.recs.values() {
            *stats.entry(format!("op_{}", r.kind.name())).or_default() += 1;
            if r.h > 0 {
                *stats.entry("ops_on_subs".into()).or_default() += 1;
            }
        }
        let e = stats.entry("max_tree_height".into()).or_default();
        *e = (*e).max(o.max_height as u64);
        let e = stats.entry("max_live_keys".into()).or_default();
        *e = (*e).max(o.max_live);
        writeln!(
            out,
            "E {i} {:x} {:x} {:x} {} {} {} {} {}",
            o.sum.hash,
            o.sum.sched_hash,
            o.log_hash,
            nontrivial(&plan, &o) as u8,
            o.recs.len(),
            o.sum.steps,
            o.sum.now_us,
            o.sum.switches
        )
        .ok();
        done += 1;
        if done % 50 == 0 {
            writeln!(out, "T {}", serde_json::to_string(&stats).unwrap()).ok();
        }
        i += step;
        // the cache of a bee and its nodes refer to each other and are never freed
        if done % 64 == 0 && resident_mb() > 1100 {
            writeln!(out, "T {}", serde_json::to_string(&stats).unwrap()).ok();
            writeln!(out, "N {i}").ok();
            out.flush().ok();
            return 0;
        }
    }
    writeln!(out, "T {}", serde_json::to_string(&stats).unwrap()).ok();
    writeln!(out, "F").ok();
    out.flush().ok();
    0
}

/// Runs given plans one by one: a line {plan, trace} in, a line {viols, trace, hash} out.
pub fn serve() -> i32 {
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return 0 };
        let v: Value = match serde_json::from_str(&l) {
            Ok(v) => v,
            Err(e) => {
                println!("{}", json!({"error": e.to_string()}));
                continue;
            }
        };
        let plan: Plan = match serde_json::from_value(v["plan"].clone()) {
            Ok(p) => p,
            Err(e) => {
                println!("{}", json!({"error": e.to_string()}));
                continue;
            }
        };
        // only for code that carries state from run to run
        if let Some(b) = v["before"].as_array() {
            let seed = v["seed"].as_u64().unwrap_or(1);
            for i in b.iter().filter_map(|i| i.as_u64()) {
                run::run(&gen::plan(&plan.prop, run_seed(&plan.prop, seed, i)), None, false);
            }
        }
        let trace = if v["trace"].is_null() { None } else { Some(dec_trace(&v["trace"])) };
        let log = v["log"].as_bool().unwrap_or(false);
        let o = run::run(&plan, trace, log);
        let bad: Vec<Value> = accepted(&plan, &o.viol).iter().map(|v| json!({"class": v.class, "op": v.op, "msg": v.msg})).collect();
        println!(
            "{}",
            json!({"viols": bad, "trace": enc_trace(&o.sum.trace), "hash": format!("{:x}", o.sum.hash), "log": o.sum.log,
                   "steps": o.sum.steps, "sim_us": o.sum.now_us})
        );
    }
    0
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}
fn limited(c: &mut Command) -> &mut Command {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        })
    }
}
fn how(st: std::io::Result<std::process::ExitStatus>) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st {
        Ok(s) => match s.signal() {
            Some(n) => format!("signal {n}"),
            None => format!("exit {}", s.code().unwrap_or(-1)),
        },
        Err(e) => e.to_string(),
    }
}

#[derive(Clone, Debug)]
struct Found {
    class: String,
    op: u32,
    msg: String,
}
#[derive(Clone, Debug)]
struct Reply {
    viols: Vec<Found>,
    trace: Value,
    hash: String,
    log: Value,
}
struct Server {
    child: Option<(Child, ChildStdin, Receiver<String>)>,
}
impl Server {
    fn new() -> Self {
        Server { child: None }
    }
    fn kill(&mut self) {
        if let Some((mut c, i, _)) = self.child.take() {
            drop(i);
            c.kill().ok();
            c.wait().ok();
        }
    }
    fn run(&mut self, plan: &Plan, trace: Option<&Value>, log: bool, limit: Duration) -> Result<Reply, String> {
        self.run_after(&Value::Null, plan, trace, log, limit)
    }
    fn run_after(&mut self, before: &Value, plan: &Plan, trace: Option<&Value>, log: bool, limit: Duration) -> Result<Reply, String> {
        if self.child.is_none() {
            let mut c = limited(Command::new(exe()).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()))
                .spawn()
                .map_err(|e| e.to_string())?;
            let i = c.stdin.take().unwrap();
            let o = c.stdout.take().unwrap();
            let (tx, rx) = channel();
            std::thread::spawn(move || {
                for l in BufReader::new(o).lines().map_while(Result::ok) {
                    if tx.send(l).is_err() {
                        return;
                    }
                }
            });
            self.child = Some((c, i, rx));
        }
        let (c, i, rx) = self.child.as_mut().unwrap();
        let line = json!({"plan": plan, "trace": trace, "log": log, "before": before["runs"], "seed": before["seed"]}).to_string();
        let ok = writeln!(i, "{line}").and_then(|_| i.flush()).is_ok();
        match if ok { rx.recv_timeout(limit) } else { Err(RecvTimeoutError::Disconnected) } {
            Ok(l) => {
                let v: Value = serde_json::from_str(&l).map_err(|e| e.to_string())?;
                if let Some(e) = v["error"].as_str() {
                    return Err(e.to_string());
                }
                let viols = v["viols"]
                    .as_array()
                    .map(|a| {
                        a.iter()
                            .map(|f| Found {
                                class: f["class"].as_str().unwrap_or("").into(),
                                op: f["op"].as_u64().unwrap_or(0) as u32,
                                msg: f["msg"].as_str().unwrap_or("").into(),
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                Ok(Reply { viols, trace: v["trace"].clone(), hash: v["hash"].as_str().unwrap_or("").into(), log: v["log"].clone() })
            }
            Err(RecvTimeoutError::Timeout) => {
                self.kill();
                Ok(Reply {
                    viols: vec![Found { class: "hang".into(), op: 0, msg: format!("a call did not return within {} s of real time", limit.as_secs()) }],
                    trace: trace.cloned().unwrap_or(Value::Null),
                    hash: "hang".into(),
                    log: json!([]),
                })
            }
            Err(RecvTimeoutError::Disconnected) => {
                let st = how(c.wait());
                self.child = None;
                Ok(Reply {
                    viols: vec![Found { class: "abort".into(), op: 0, msg: format!("the process died: {st}") }],
                    trace: trace.cloned().unwrap_or(Value::Null),
                    hash: "abort".into(),
                    log: json!([]),
                })
            }
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.kill()
    }
}
/// An abort, or a call that never returns, breaks these properties.
fn fatal_counts(prop: &str) -> bool {
    !matches!(prop, "C05" | "C06" | "C07" | "C20" | "C21" | "C22")
}

// ------------------------------------------------------------------ minimise
struct Min<'a> {
    srv: &'a mut Server,
    class: String,
    best: Plan,
    trace: Value,
    until: Instant,
    limit: Duration,
    tries: u64,
    last: Found,
}
impl Min<'_> {
    fn time(&self) -> bool {
        Instant::now() < self.until
    }
    fn attempt(&mut self, plan: Plan, reseed: u64) -> bool {
        if !self.time() {
            return false;
        }
        let mut cands: Vec<(Plan, Option<Value>)> = vec![(plan.clone(), Some(self.trace.clone()))];
        for k in 0..reseed {
            let mut p = plan.clone();
            p.seed = simrt::mix(plan.seed, k + 1);
            cands.push((p, None));
        }
        for (p, t) in cands {
            if !self.time() {
                return false;
            }
            self.tries += 1;
            if let Ok(r) = self.srv.run(&p, t.as_ref(), false, self.limit) {
                if let Some(f) = r.viols.iter().find(|f| f.class == self.class) {
                    self.last = f.clone();
                    self.best = p;
                    self.trace = r.trace;
                    return true;
                }
            }
        }
        false
    }
    fn chunks<T: Clone>(&mut self, reseed: u64, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
        let mut size = get(&self.best).len();
        while size > 0 && self.time() {
            let mut at = 0;
            loop {
                let cur = get(&self.best);
                if at >= cur.len() || !self.time() {
                    break;
                }
                let mut v = cur.clone();
                v.drain(at..(at + size).min(cur.len()));
                let mut p = self.best.clone();
                set(&mut p, v);
                if !self.attempt(p, reseed) {
                    at += size;
                }
            }
            size /= 2;
        }
    }
    fn all(&mut self) {
        for round in 0..3 {
            let before = self.tries;
            let size = serde_json::to_string(&self.best).map(|s| s.len()).unwrap_or(0);
            // clients
            self.chunks(6, |p| p.clients.clone(), |p, v| p.clients = v);
            self.chunks(3, |p| p.finale.clone(), |p, v| p.finale = v);
            for c in 0..self.best.clients.len() {
                self.chunks(4, move |p| p.clients.get(c).map(|c| c.ops.clone()).unwrap_or_default(), move |p, v| {
                    if let Some(c) = p.clients.get_mut(c) {
                        c.ops = v
                    }
                });
            }
            self.chunks(2, |p| p.preload.clone(), |p, v| p.preload = v);
            self.chunks(1, |p| p.damage.clone(), |p, v| p.damage = v);
            let tweaks: Vec<fn(&mut Plan)> = vec![
                |p| p.faults = Faults { core_lock: p.faults.core_lock, ..Default::default() },
                |p| p.faults.read_err = 0,
                |p| p.faults.app_before = 0,
                |p| p.faults.app_after = 0,
                |p| p.faults.app_ghost = 0,
                |p| p.faults.full = 0,
                |p| p.faults.max_crashes = 0,
                |p| p.faults.max_crashes = p.faults.max_crashes.min(1),
                |p| p.faults.crash_read = 0,
                |p| p.faults.crash_before = 0,
                |p| p.faults.open_err = 0,
                |p| p.faults.core_lock = false,
                |p| p.sched.spurious = 0,
                |p| p.sched.clock = 0,
                |p| p.sched.preempt = 0,
                |p| {
                    p.sched.slow = 0;
                    p.sched.max_delay = 0
                },
                |p| p.age = 0,
                |p| p.age_to = 0,
                |p| p.traced = false,
                |p| p.second = false,
                |p| p.header = None,
                |p| {
                    for c in p.clients.iter_mut() {
                        for o in c.ops.iter_mut() {
                            o.cancel = None
                        }
                    }
                },
                |p| {
                    for c in p.clients.iter_mut() {
                        c.once = false
                    }
                },
                |p| {
                    for o in p.clients.iter_mut().flat_map(|c| c.ops.iter_mut()) {
                        if let Kind::Traverse { handoff, pause, .. } = &mut o.kind {
                            *handoff = false;
                            *pause = 0;
                        }
                    }
                },
                |p| {
                    for o in p.clients.iter_mut().flat_map(|c| c.ops.iter_mut()) {
                        if let Kind::Traverse { inner, .. } = &mut o.kind {
                            *inner = 0;
                        }
                    }
                },
            ];
            for t in tweaks {
                let mut p = self.best.clone();
                t(&mut p);
                if serde_json::to_value(&p).ok() != serde_json::to_value(&self.best).ok() {
                    self.attempt(p, 4);
                }
            }
            let now = serde_json::to_string(&self.best).map(|s| s.len()).unwrap_or(0);
            let _ = (before, round);
            if now == size || !self.time() {
                break;
            }
        }
        self.decisions();
    }
    /// Set recorded decisions back to their benign value where possible.
    fn decisions(&mut self) {
        let mut cur: Vec<Value> = self.trace.as_array().cloned().unwrap_or_default();
        let mut size = cur.len();
        while size > 0 && self.time() {
            let mut at = 0;
            while at < cur.len() && self.time() {
                let mut v = cur.clone();
                v.drain(at..(at + size).min(cur.len()));
                self.tries += 1;
                let t = Value::Array(v);
                let ok = match self.srv.run(&self.best.clone(), Some(&t), false, self.limit) {
                    Ok(r) => r.viols.iter().find(|f| f.class == self.class).map(|f| (f.clone(), r.trace.clone())),
                    Err(_) => None,
                };
                match ok {
                    Some((f, tr)) => {
                        self.last = f;
                        let n = tr.as_array().cloned().unwrap_or_default();
                        cur = if n.len() < cur.len() { n } else { t.as_array().cloned().unwrap() };
                        self.trace = Value::Array(cur.clone());
                    }
                    None => at += size,
                }
            }
            size /= 2;
        }
    }
}

fn verif() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// Minimise and write the replay file; None if it does not come back at all.
fn report(prop: &str, seed: u64, i: u64, f: &Found, secs: u64, earlier: &[u64]) -> Result<String, String> {
    let plan = gen::plan(prop, run_seed(prop, seed, i));
    let mut srv = Server::new();
    let limit = if f.class == "hang" { Duration::from_secs(20) } else { HANG };
    let first = srv.run(&plan, None, false, limit)?;
    let same = first.viols.iter().find(|v| v.class == f.class).or(first.viols.first()).cloned();
    let Some(same) = same else {
        return report_after(prop, seed, i, f, &plan, earlier);
    };
    // aborts and hangs leave no trace: they are replayed from the seed
    let fatal = same.class == "abort" || same.class == "hang";
    let mut m = Min {
        srv: &mut srv,
        class: same.class.clone(),
        best: plan.clone(),
        trace: if fatal { Value::Null } else { first.trace.clone() },
        until: Instant::now() + Duration::from_secs(secs),
        limit,
        tries: 0,
        last: same.clone(),
    };
    if !fatal {
        m.all();
    } else {
        m.chunks(2, |p| p.clients.clone(), |p, v| p.clients = v);
        m.chunks(2, |p| p.finale.clone(), |p, v| p.finale = v);
        for c in 0..m.best.clients.len() {
            m.chunks(1, move |p| p.clients.get(c).map(|c| c.ops.clone()).unwrap_or_default(), move |p, v| {
                if let Some(c) = p.clients.get_mut(c) {
                    c.ops = v
                }
            });
        }
    }
    let (best, trace, tries) = (m.best.clone(), m.trace.clone(), m.tries);
    // twice, each in a fresh process
    let mut outs = vec![];
    for _ in 0..2 {
        let mut s = Server::new();
        let t = if trace.is_null() { None } else { Some(&trace) };
        outs.push(s.run(&best, t, true, limit)?);
    }
    let v = outs[0].viols.iter().find(|v| v.class == same.class).cloned().unwrap_or(same.clone());
    let exact = outs[0].hash == outs[1].hash && outs[1].viols.iter().any(|x| x.class == v.class && x.op == v.op && x.msg == v.msg);
    let dir = verif().join("replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{prop}-{seed}-{i}.json"));
    let file = json!({
        "property": prop, "class": v.class, "op": v.op, "message": v.msg,
        "verif_seed": seed, "run": i, "run_seed": run_seed(prop, seed, i),
        "hash": outs[0].hash, "reproduced_twice_exactly": exact,
        "minimised": {"runs": tries,
            "ops": best.ops() + best.finale.len(), "ops_before": plan.ops() + plan.finale.len(),
            "decisions": trace.as_array().map(|a| a.len()), "decisions_before": first.trace.as_array().map(|a| a.len())},
        "plan": best, "trace": trace, "log": outs[0].log,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).map_err(|e| e.to_string())?;
    println!("{} [{}] {}", prop, v.class, v.msg);
    println!(
        "  run {i} of seed {seed}; minimised from {} to {} operations in {tries} runs{}",
        plan.ops() + plan.finale.len(),
        best.ops() + best.finale.len(),
        if exact { ", replays exactly" } else { ", REPLAY DIFFERS" }
    );
    Ok(path.to_string_lossy().into_owned())
}

/// The run alone does not show it: something is carried over from earlier runs in the process.
fn report_after(prop: &str, seed: u64, i: u64, f: &Found, plan: &Plan, earlier: &[u64]) -> Result<String, String> {
    let mut n = 1;
    loop {
        let runs = &earlier[earlier.len().saturating_sub(n)..];
        let before = json!({"seed": seed, "runs": runs});
        let mut srv = Server::new();
        let r = srv.run_after(&before, plan, None, true, Duration::from_secs(120))?;
        if let Some(v) = r.viols.first() {
            let dir = verif().join("replays");
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let path = dir.join(format!("{prop}-{seed}-{i}.json"));
            let file = json!({
                "property": prop, "class": v.class, "op": v.op, "message": v.msg,
                "verif_seed": seed, "run": i, "run_seed": run_seed(prop, seed, i), "hash": r.hash,
                "before": before, "plan": plan, "trace": Value::Null, "log": r.log,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).map_err(|e| e.to_string())?;
            println!("{} [{}] {}", prop, v.class, v.msg);
            println!("  run {i} of seed {seed}, only after {} earlier runs in the same process; not minimised", runs.len());
            return Ok(path.to_string_lossy().into_owned());
        }
        if n >= earlier.len() {
            return Err(format!("run {i} does not show the violation again: {} {}", f.class, f.msg));
        }
        n *= 8;
    }
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let plan: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let t = if v["trace"].is_null() { None } else { Some(&v["trace"]) };
    let mut srv = Server::new();
    match srv.run_after(&v["before"], &plan, t, true, Duration::from_secs(120)) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(r) => {
            for l in r.log.as_array().into_iter().flatten() {
                println!("{}", l.as_str().unwrap_or(""));
            }
            let want = v["class"].as_str().unwrap_or("");
            let hit = r.viols.iter().find(|f| f.class == want);
            match hit {
                Some(f) => {
                    let exact = f.msg == v["message"].as_str().unwrap_or("") && r.hash == v["hash"].as_str().unwrap_or("");
                    println!("{} [{}] {}", plan.prop, f.class, f.msg);
                    println!("{}", if exact { "reproduced exactly" } else { "reproduced, with a different history" });
                    println!("VIOLATION property={} replay={path}", plan.prop);
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
    }
}

pub fn show(prop: &str, seed: u64, i: u64) -> i32 {
    let plan = gen::plan(prop, run_seed(prop, seed, i));
    println!("{}", serde_json::to_string(&plan).unwrap());
    let again: Plan = serde_json::from_str(&serde_json::to_string(&plan).unwrap()).unwrap();
    assert_eq!(format!("{again:?}"), format!("{plan:?}"));
    let o = run::run(&plan, None, true);
    for l in &o.sum.log {
        println!("{l}");
    }
    for v in &o.viol {
        let ok = accepted(&plan, std::slice::from_ref(v)).len();
        println!("{} [{}] {}", if ok > 0 { "VIOL" } else { "other" }, v.class, v.msg);
    }
    println!("{:?}", o.sum.stats);
    0
}

// ------------------------------------------------------------------ the check
struct Known {
    prop: String,
    class: String,
    needle: String,
    text: String,
}
/// Lines `finding: property=<id> class=<class> match=<text of the message> what=<description>`;
/// lines `fixed: ...` suppress nothing.
fn known() -> Vec<Known> {
    let s = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let f = |k: &str, end: Option<&str>| -> Option<String> {
                let a = l.find(k)? + k.len();
                let b = end.and_then(|e| l[a..].find(e).map(|x| a + x)).unwrap_or(l.len());
                Some(l[a..b].to_string())
            };
            Some(Known { prop: f("property=", Some(" "))?, class: f("class=", Some(" "))?, needle: f("match=", Some(" what="))?, text: f("what=", None)? })
        })
        .collect()
}

enum Msg {
    Line(usize, String),
    End(usize),
}

/// Search effort: number of runs and seconds.
fn effort(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" | "C02" => 60_000,
        "C03" | "C04" | "C13" | "C14" => 75_000,
        "C05" | "C06" => 30_000,
        "C07" => 150_000,
        "C08" | "C09" | "C10" | "C11" | "C19" | "C20" | "C21" | "C22" => 45_000,
        "C12" | "C16" => 90_000,
        "C15" => 120_000,
        _ => 1000,
    };
    if tier == "thorough" {
        (quick * 100, 600)
    } else {
        (quick, 120)
    }
}

pub fn check(a: &[String]) -> i32 {
    let mut o: BTreeMap<String, String> = BTreeMap::new();
    let mut it = a.iter();
    while let Some(k) = it.next() {
        o.insert(k.trim_start_matches("--").to_string(), it.next().cloned().unwrap_or_default());
    }
    let prop = o.get("property").cloned().unwrap_or_default();
    if !PROPS.contains(&&prop[..]) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let env = |k: &str| std::env::var(k).ok();
    let seed: u64 = o.get("seed").cloned().or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = o.get("tier").cloned().or(env("VERIF_TIER")).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let (mut runs, mut secs) = effort(&prop, tier);
    if let Some(n) = o.get("runs").and_then(|s| s.parse().ok()) {
        runs = n;
    }
    if let Some(n) = o.get("secs").and_then(|s| s.parse().ok()) {
        secs = n;
    }
    let nw: usize = o.get("workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16));
    let t0 = Instant::now();
    let known = known();

    let (tx, rx) = channel::<Msg>();
    let mut kids: Vec<Option<Child>> = vec![];
    let spawn = |w: usize, first: u64, left: u64, tx: Sender<Msg>| -> Option<Child> {
        let mut c = limited(
            Command::new(exe())
                .args(["worker", &prop, &seed.to_string(), &first.to_string(), &nw.to_string(), &runs.to_string(), &left.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null()),
        )
        .spawn()
        .ok()?;
        let out = c.stdout.take()?;
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(Msg::Line(w, l)).is_err() {
                    return;
                }
            }
            tx.send(Msg::End(w)).ok();
        });
        Some(c)
    };
    for w in 0..nw {
        match spawn(w, w as u64, secs, tx.clone()) {
            Some(c) => kids.push(Some(c)),
            None => {
                eprintln!("cannot start a worker");
                return 3;
            }
        }
    }
    let mut current: Vec<Option<u64>> = vec![None; nw];
    let mut starts: Vec<u64> = (0..nw as u64).collect();
    let mut since: Vec<Instant> = vec![Instant::now(); nw];
    let mut finished = vec![false; nw];
    let mut next: Vec<Option<u64>> = vec![None; nw];
    let mut gens: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); nw];
    let mut base: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); nw];
    let mut found: BTreeMap<u64, Found> = BTreeMap::new();
    let mut old: BTreeMap<String, u64> = BTreeMap::new();
    let mut harness: Vec<String> = vec![];
    let mut hashes: BTreeMap<u64, String> = BTreeMap::new();
    let (mut scheds, mut logs) = (BTreeSet::new(), BTreeSet::new());
    let mut distinct = BTreeSet::new();
    let (mut n_runs, mut n_ops, mut n_steps, mut n_us, mut n_sw, mut deaths) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u32);
    let merge = |to: &mut BTreeMap<String, u64>, from: &BTreeMap<String, u64>| {
        for (k, v) in from {
            let e = to.entry(k.clone()).or_default();
            *e = if k.starts_with("max_") { (*e).max(*v) } else { *e + *v };
        }
    };
    let mut live = nw;
    while live > 0 {
        let m = rx.recv_timeout(Duration::from_millis(500));
        match m {
            Ok(Msg::Line(w, l)) => {
                let (k, rest) = l.split_at(l.len().min(1));
                let rest = rest.trim_start();
                match k {
                    "S" => {
                        current[w] = rest.parse().ok();
                        since[w] = Instant::now();
                    }
                    "E" => {
                        current[w] = None;
                        since[w] = Instant::now();
                        let f: Vec<&str> = rest.split(' ').collect();
                        let num = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                        n_runs += 1;
                        hashes.insert(num(0), f[1].to_string());
                        scheds.insert(f[2].to_string());
                        logs.insert(f[3].to_string());
                        if f[4] == "1" {
                            distinct.insert(f[1].to_string());
                        }
                        n_ops += num(5);
                        n_steps += num(6);
                        n_us += num(7);
                        n_sw += num(8);
                    }
                    "V" => {
                        let v: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
                        let f = Found { class: v["class"].as_str().unwrap_or("").into(), op: v["op"].as_u64().unwrap_or(0) as u32, msg: v["msg"].as_str().unwrap_or("").into() };
                        match known.iter().find(|k| k.prop == prop && k.class == f.class && f.msg.contains(&k.needle)) {
                            Some(k) => *old.entry(k.text.clone()).or_default() += 1,
                            None => {
                                found.insert(v["i"].as_u64().unwrap_or(0), f);
                            }
                        }
                    }
                    "X" => harness.push(rest.to_string()),
                    "T" => gens[w] = serde_json::from_str(rest).unwrap_or_default(),
                    "F" => finished[w] = true,
                    "N" => next[w] = rest.parse().ok(),
                    _ => {}
                }
            }
            Ok(Msg::End(w)) => {
                let st = kids[w].take().map(|mut c| how(c.wait())).unwrap_or_default();
                let g = std::mem::take(&mut gens[w]);
                merge(&mut base[w], &g);
                let left = secs.saturating_sub(t0.elapsed().as_secs());
                let more = next[w].take();
                if let (Some(i), true) = (more, found.is_empty() && left > 0) {
                    // it grew too large: go on in a fresh process
                    match spawn(w, i, left, tx.clone()) {
                        Some(c) => {
                            kids[w] = Some(c);
                            starts[w] = i;
                            since[w] = Instant::now();
                            continue;
                        }
                        None => harness.push("cannot restart a worker".into()),
                    }
                    live -= 1;
                } else if finished[w] || more.is_some() || (!found.is_empty() && current[w].is_none()) {
                    live -= 1;
                } else {
                    let at = current[w].take();
                    deaths += 1;
                    if let Some(i) = at {
                        let hung = since[w].elapsed() > HANG;
                        let f = if hung {
                            Found { class: "hang".into(), op: 0, msg: format!("a call did not return within {} s of real time", HANG.as_secs()) }
                        } else {
                            Found { class: "abort".into(), op: 0, msg: format!("the process died: {st}") }
                        };
                        if fatal_counts(&prop) && found.is_empty() {
                            found.insert(i, f);
                        } else if !fatal_counts(&prop) {
                            harness.push(format!("run {i}: {}", f.msg));
                        }
                        if found.is_empty() && left > 0 && deaths < 40 {
                            match spawn(w, i + nw as u64, left, tx.clone()) {
                                Some(c) => {
                                    kids[w] = Some(c);
                                    starts[w] = i + nw as u64;
                                    since[w] = Instant::now();
                                    continue;
                                }
                                None => harness.push("cannot restart a worker".into()),
                            }
                        }
                    } else if found.is_empty() {
                        harness.push(format!("worker {w} died between runs: {st}"));
                    }
                    live -= 1;
                }
            }
            Err(_) => {}
        }
        // one that hangs inside a step
        for w in 0..nw {
            if current[w].is_some() && since[w].elapsed() > HANG {
                if let Some(c) = kids[w].as_mut() {
                    c.kill().ok();
                }
            }
        }
        if !found.is_empty() {
            for k in kids.iter_mut().flatten() {
                k.kill().ok();
            }
            current.iter_mut().for_each(|c| *c = None);
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    if o.contains_key("brief") {
        // for experiments: no replay file, no evidence
        if let Some((i, f)) = found.iter().next() {
            println!("FOUND {prop} run {i} of {n_runs} [{}] {}", f.class, f.msg);
            return 1;
        }
        harness.iter().take(1).for_each(|h| println!("HARNESS {h}"));
        return if harness.is_empty() { 0 } else { 3 };
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    for b in &base {
        merge(&mut stats, b);
    }

    // the same seed again, in another process
    let (mut again, mut differ) = (0, 0);
    let mut samples = vec![];
    {
        let mut srv = Server::new();
        let pick: Vec<u64> = hashes.keys().copied().collect();
        for k in 0..6usize {
            if pick.is_empty() {
                break;
            }
            let i = pick[(k * pick.len() / 6).min(pick.len() - 1)];
            let plan = gen::plan(&prop, run_seed(&prop, seed, i));
            if let Ok(r) = srv.run(&plan, None, k < 2, HANG) {
                again += 1;
                if r.hash != hashes[&i] {
                    differ += 1;
                    eprintln!("NOTE: run {i} differed when repeated: {} then {}", hashes[&i], r.hash);
                }
                if k < 2 {
                    let log: Vec<Value> = r.log.as_array().map(|a| a.iter().take(60).cloned().collect()).unwrap_or_default();
                    samples.push(json!({"run": i, "run_seed": run_seed(&prop, seed, i), "schedule": plan.sched, "faults": plan.faults,
                        "clients": plan.clients.iter().map(|c| c.ops.len()).collect::<Vec<_>>(), "preloaded": plan.preload.len(),
                        "history": log, "hash": r.hash}));
                }
            }
        }
    }
    let mut code = 0;
    for (t, n) in &old {
        println!("KNOWN-FINDING: property={prop} {t} ({n} runs)");
    }
    if let Some((i, f)) = found.iter().next() {
        let earlier: Vec<u64> = (starts[*i as usize % nw]..*i).step_by(nw).collect();
        match report(&prop, seed, *i, f, if tier == "thorough" { 120 } else { 60 }, &earlier) {
            Ok(path) => {
                println!("VIOLATION property={prop} replay={path}");
                code = 1;
            }
            Err(e) => {
                eprintln!("HARNESS: {e}");
                code = 3;
            }
        }
    } else if !harness.is_empty() {
        for h in harness.iter().take(5) {
            eprintln!("HARNESS: {h}");
        }
        code = 3;
    } else if n_runs == 0 {
        eprintln!("HARNESS: no run completed");
        code = 3;
    }
    let faults: BTreeMap<&String, &u64> = stats
        .iter()
        .filter(|(k, _)| k.starts_with("fault_") || k.starts_with("damage_") || k.starts_with("net_") || ["slow_io", "delayed_io", "preemptions", "spurious_polls", "clock_suspends", "clock_sets", "cancelled_ops", "restarts", "ghost_blocks_reappeared", "missing_block_hits"].contains(&&k[..]))
        .collect();
    let ops: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| k.starts_with("op_") || k.starts_with("ops_")).collect();
    let rest: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| !faults.contains_key(k) && !ops.contains_key(k) && !k.starts_with("seen_")).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n_runs,
            "distinct_nontrivial": distinct.len(),
            "rule": rule(&prop),
            "samples": samples,
            "runs_per_hour": (n_runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (n_runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": n_us as f64 / 1e6,
            "scheduler_steps": n_steps,
            "task_switches": n_sw,
            "operations": n_ops,
            "operations_by_kind": ops,
            "faults_injected": faults,
            "distinct_interleavings": scheds.len(),
            "distinct_interleavings_measure": "hash of the sequence of tasks and I/O completions picked by the scheduler",
            "distinct_final_logs": logs.len(),
            "other_counts": rest,
            "replayed_in_another_process": again,
            "replays_that_differed": differ,
            "worker_processes": nw,
            "components": {
                "real": "all of /repo/src and schema.proto; tokio's locks; prost; thiserror; tracing; uniffi",
                "stub": "hypercore (simulated disk), replicator (simulated network), derive_builder, futures-lite, tokio's scheduler"
            }
        },
        "assumptions": [
            "a block whose append returned is durable; a block in the log is never lost",
            "the stub of hypercore and replicator behave as the real crates at the calls hyperbee makes",
            "scheduling is explored at await points and lock acquisitions, not inside synchronous code"
        ],
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 }
    });
    let dir = verif().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    if let Err(e) = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("HARNESS: cannot write evidence: {e}");
        code = code.max(3);
    }
    println!(
        "{prop} {tier} seed {seed}: {n_runs} runs ({} distinct non-trivial) in {search_s:.1} s, {n_ops} operations, {:.1} s simulated, {} faults; {}",
        distinct.len(),
        n_us as f64 / 1e6,
        stats.iter().filter(|(k, _)| k.starts_with("fault_") || k.starts_with("damage_")).map(|x| *x.1).sum::<u64>(),
        match code {
            0 => "held",
            1 => "VIOLATED",
            _ => "ERROR",
        }
    );
    code
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "seeded plan (tree, clients, crash points); non-trivial: at least one restart and one effective write; distinct by history hash",
        "C02" => "seeded plan with storage errors; non-trivial: at least one injected error and one effective write, or a read-only core; distinct by history hash",
        "C03" => "seeded plan with 2-5 concurrent clients; non-trivial: two operations overlapped, one of them a write; distinct by history hash",
        "C04" => "seeded plan with racing swaps; non-trivial: a condition was evaluated and a write overlapped another operation; distinct by history hash",
        "C05" | "C06" => "seeded plan on trees of up to 700 entries; non-trivial: more than three effective writes on a tree with internal nodes; distinct by history hash",
        "C07" => "seeded plan; non-trivial: an effective write and a fault, an overlap or an empty log at the start; distinct by history hash",
        "C08" => "seeded plan with traversals; non-trivial: more than five items yielded; distinct by history hash",
        "C09" => "seeded plan with traversals; non-trivial: a traversal met an injected error; distinct by history hash",
        "C10" => "seeded plan with subs; non-trivial: a sub wrote or traversed something; distinct by history hash",
        "C11" => "seeded plan with replicas; non-trivial: a stream was connected and something was written; distinct by history hash",
        "C12" => "seeded plan with damaged blocks; distinct by history hash",
        "C13" => "seeded plan with cancellations; non-trivial: an operation was dropped before it completed; distinct by history hash",
        "C14" => "seeded plan; non-trivial: more than five task switches and overlapping operations, one a write; distinct by history hash",
        "C15" => "seeded plan of gets through C; non-trivial: more than three gets; distinct by history hash",
        "C16" => "seeded plan through the exported UniFFI functions; non-trivial: an effective write; distinct by history hash",
        "C19" => "seeded plan with height, print and {:?}; non-trivial: one of them returned and something was written; distinct by history hash",
        "C22" => "seeded plan of other properties with slow storage; non-trivial: more than three delayed storage calls; distinct by history hash",
        "C21" => "seeded plan of other properties; non-trivial: more than three blocks read from storage; distinct by history hash",
        "C20" => "seeded plan of any other property; non-trivial: more than three operations; distinct by history hash",
        _ => "seeded plan",
    }
}

/// Same seeds in different processes and at different positions: identical histories.
pub fn selftest() -> i32 {
    let mut bad = 0;
    for prop in PROPS {
        let mut a = Server::new();
        let mut b = Server::new();
        let n = 60u64;
        let mut ha = vec![];
        for i in 0..n {
            let p = gen::plan(prop, run_seed(prop, 77, i));
            let again: Plan = serde_json::from_str(&serde_json::to_string(&p).unwrap()).unwrap();
            if format!("{again:?}") != format!("{p:?}") || run::run(&p, None, false).sum.hash != run::run(&again, None, true).sum.hash {
                println!("{prop} run {i}: changes when written and read");
                bad += 1;
            }
            ha.push(a.run(&p, None, false, HANG).map(|r| (r.hash, r.trace, r.viols.len())));
        }
        for i in (0..n).rev() {
            let p = gen::plan(prop, run_seed(prop, 77, i));
            let x = b.run(&p, None, false, HANG).map(|r| r.hash);
            let (h, t, _) = match &ha[i as usize] {
                Ok(x) => x.clone(),
                Err(e) => {
                    println!("{prop} run {i}: {e}");
                    bad += 1;
                    continue;
                }
            };
            if x.as_ref().ok() != Some(&h) {
                println!("{prop} run {i}: {h} then {x:?}");
                bad += 1;
            }
            if i % 5 == 0 {
                // and from the recorded decisions instead of the seed
                let y = b.run(&p, Some(&t), false, HANG).map(|r| r.hash);
                if y.as_ref().ok() != Some(&h) {
                    println!("{prop} run {i}: seed {h}, trace {y:?}");
                    bad += 1;
                }
            }
        }
        println!("{prop}: {n} runs compared");
    }
    (bad > 0) as i32
}
