//! Runs scenarios over the real channel code under controlled schedules and records what happened.
#![allow(clippy::all)]
mod sched;
mod vstd;
mod gen {
    #![allow(dead_code, unused_imports, unexpected_cfgs)]
    include!(concat!(env!("OUT_DIR"), "/gen_mod.rs"));
}
use gen::channel;
use channel::{oneshot, parker, ChannelSpec};
mod rt {
    pub use crate::gen::channel;
    pub use crate::sched::{call, lib, ret};
    pub fn stray() {
        crate::sched::unpark(0)
    }
    pub fn await_rx() {
        crate::sched::join(0)
    }
}
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Condvar, Mutex};

#[global_allocator]
static A: sched::Alloc = sched::Alloc;

#[path = "../../conc/src/ops.rs"]
mod ops;
use ops::{rx_thread, tx_thread, Rx, Tx, BAD, DROPS, V};
use sched::lib;
// ---------------------------------------------------------------- worker pool
type Job = Box<dyn FnOnce() + Send>;
struct Worker(Arc<(Mutex<Option<Job>>, Condvar)>);
impl Worker {
    fn new() -> Worker {
        let w = Arc::new((Mutex::new(None::<Job>), Condvar::new()));
        let w2 = w.clone();
        std::thread::spawn(move || loop {
            let job = {
                let mut g = w2.0.lock().unwrap();
                loop {
                    if let Some(j) = g.take() {
                        break j;
                    }
                    g = w2.1.wait(g).unwrap();
                }
            };
            job();
        });
        Worker(w)
    }
    fn run(&self, j: Job) {
        *self.0 .0.lock().unwrap() = Some(j);
        self.0 .1.notify_one();
    }
}

#[derive(Clone)]
struct Scn {
    kind: String,
    spurious: usize,
    rx: Vec<(String, i64)>,
    tx: Vec<Vec<(String, i64)>>,
    json: Value,
}
fn ops(v: &Value) -> Vec<(String, i64)> {
    v.as_array().unwrap().iter().map(|o| match o {
        Value::String(s) => (s.clone(), 0),
        o => (o[0].as_str().unwrap().into(), o[1].as_i64().unwrap()),
    }).collect()
}
impl Scn {
    fn parse(v: &Value) -> Scn {
        Scn {
            kind: v["kind"].as_str().unwrap().into(),
            spurious: v["spurious"].as_u64().unwrap_or(0) as usize,
            rx: ops(&v["rx"]),
            tx: v["tx"].as_array().unwrap().iter().map(ops).collect(),
            json: json!({"kind": v["kind"], "spurious": v["spurious"], "rx": v["rx"], "tx": v["tx"]}),
        }
    }
}
struct Outcome {
    line: Value,
    trace: Vec<sched::Choice>,
    end: &'static str,
}
fn run_once(pool: &mut Vec<Worker>, s: &Scn, policy: sched::Policy) -> Outcome {
    let n = 1 + s.tx.len();
    while pool.len() < n {
        pool.push(Worker::new());
    }
    sched::start(n, s.spurious, policy);
    for d in &DROPS {
        d.store(0, SeqCst);
    }
    BAD.store(0, SeqCst);
    // the initial handles: one per sending thread
    let mut handles: Vec<Tx> = vec![];
    let rx = match s.kind.as_str() {
        "raw" => {
            let (a, b) = lib(|| oneshot::channel::<V>());
            handles.push(Tx::Raw(a));
            Rx { rx: Some(b), pk: None }
        }
        "park" => {
            let (a, b) = lib(|| oneshot::channel::<V>());
            let (u, p) = lib(|| parker::new(Some(a)));
            handles.push(Tx::Unp(u));
            Rx { rx: Some(b), pk: Some(p) }
        }
        "dyn" => {
            let (a, (b, p)) = lib(|| channel::SyncChannels.new_oneshot::<V>());
            handles.push(Tx::Dyn(a));
            Rx { rx: Some(b), pk: Some(p) }
        }
        _ => {
            let (u, p) = lib(|| parker::new(()));
            handles.push(Tx::Unit(u));
            Rx { rx: None, pk: Some(p) }
        }
    };
    for _ in 1..s.tx.len() {
        let c = match &handles[0] {
            Tx::Raw(x) => Tx::Raw(lib(|| x.clone())),
            Tx::Unp(x) => Tx::Unp(lib(|| x.clone())),
            Tx::Unit(x) => Tx::Unit(lib(|| x.clone())),
            Tx::Dyn(_) => break,
        };
        handles.push(c);
    }
    let ro = s.rx.clone();
    pool[0].run(Box::new(move || guarded(0, move || rx_thread(rx, ro))));
    handles.reverse();
    for (k, o) in s.tx.iter().enumerate() {
        let h: Vec<Tx> = handles.pop().into_iter().collect();
        let o = o.clone();
        pool[k + 1].run(Box::new(move || guarded(k + 1, move || tx_thread(h, o))));
    }
    let end = sched::go();
    let (log, trace) = {
        let g = sched::S.lock().unwrap();
        (g.log.clone(), g.trace.clone())
    };
    let leaks = sched::end_tracking();
    if end != "done" {
        pool.clear();
    }
    let drops: Vec<usize> = DROPS.iter().map(|d| d.load(SeqCst)).collect();
    let line = json!({"op": "chan", "scn": s.json, "log": log, "end": end, "drops": drops,
        "bad": BAD.load(SeqCst), "uaf": sched::UAF.load(SeqCst), "dfree": sched::DFREE.load(SeqCst),
        "leaks": if end == "done" { leaks } else { 0 }, "st": "ok"});
    Outcome { line, trace, end }
}
fn guarded(t: usize, f: impl FnOnce()) {
    sched::begin(t);
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
        sched::log(json!({"t": t, "e": "panic"}));
    }
    sched::finish();
}

struct Out {
    f: std::io::BufWriter<std::fs::File>,
    seen: HashSet<u64>,
    runs: usize,
    lines: usize,
}
impl Out {
    fn put(&mut self, o: &Outcome) {
        use std::hash::{Hash, Hasher};
        self.runs += 1;
        let s = o.line.to_string();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        if self.seen.insert(h.finish()) {
            self.lines += 1;
            writeln!(self.f, "{s}").unwrap();
        }
    }
}
/// Every schedule with at most `bound` preemptions, up to `max` runs.
fn explore(pool: &mut Vec<Worker>, s: &Scn, bound: usize, max: usize, out: &mut Out) -> bool {
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0;
    loop {
        let o = run_once(pool, s, sched::Policy::Prefix(prefix.clone()));
        out.put(&o);
        n += 1;
        if o.end != "done" {
            return true;
        }
        if n >= max {
            return false;
        }
        // the deepest choice with an untried alternative
        let t = &o.trace;
        let cost = |i: usize, c: usize| (t[i].cur != usize::MAX && c != t[i].cur && t[i].enabled.contains(&t[i].cur)) as usize;
        let mut used = vec![0; t.len() + 1];
        for i in 0..t.len() {
            used[i + 1] = used[i] + cost(i, t[i].chosen);
        }
        let mut i = t.len();
        let next = loop {
            if i == 0 {
                break None;
            }
            i -= 1;
            let order = |c: usize| if Some(c) == dflt(&t[i]) { 0 } else { 1 + c };
            let cur = order(t[i].chosen);
            let alt = t[i].enabled.iter().copied().filter(|c| order(*c) > cur && used[i] + cost(i, *c) <= bound).min_by_key(|c| order(*c));
            if let Some(a) = alt {
                break Some((i, a));
            }
        };
        let Some((i, a)) = next else { return true };
        prefix = t[..i].iter().map(|c| c.chosen).collect();
        prefix.push(a);
    }
}
fn dflt(c: &sched::Choice) -> Option<usize> {
    c.dflt
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: usize| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    std::panic::set_hook(Box::new(|i| {
        if std::thread::current().name() == Some("main") || std::env::var("VDEBUG").is_ok() {
            eprintln!("harness: {i}");
        }
    }));
    let inp = std::fs::read_to_string(get("--in").unwrap()).unwrap();
    let (shard, shards) = (num("--shard", 0), num("--shards", 1));
    let mut out = Out { f: std::io::BufWriter::new(std::fs::File::create(get("--out").unwrap()).unwrap()), seen: HashSet::new(), runs: 0, lines: 0 };
    let mut pool = vec![];
    let mut complete = 0;
    let mut scns = 0;
    let mut by: HashMap<&str, usize> = HashMap::new();
    for (i, l) in inp.lines().filter(|l| !l.trim().is_empty()).enumerate() {
        if i % shards != shard {
            continue;
        }
        let v: Value = serde_json::from_str(l).unwrap();
        let s = Scn::parse(&v);
        scns += 1;
        if let Some(p) = v.get("sched").and_then(|p| p.as_array()) {
            let p = p.iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let o = run_once(&mut pool, &s, sched::Policy::Prefix(p));
            *by.entry(o.end).or_default() += 1;
            out.put(&o);
            continue;
        }
        if explore(&mut pool, &s, num("--bound", 2), num("--max", 20000), &mut out) {
            complete += 1;
        }
        for k in 0..num("--random", 100) {
            let seed = (num("--seed", 1) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (i as u64 + 1).wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ ((k as u64 + 1) << 17);
            let o = run_once(&mut pool, &s, sched::Policy::Random(seed | 1, 1 + k as u64 % 4));
            let bad = o.end != "done";
            out.put(&o);
            if bad {
                break;
            }
        }
    }
    out.f.flush().unwrap();
    println!("{}", json!({"scenarios": scns, "runs": out.runs, "lines": out.lines, "exhausted": complete, "ends": by.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()}));
    std::process::exit(0);
}
