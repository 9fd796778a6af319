//! Queue driver: histories of queue and edit-guard operations under a virtual clock.
use crate::core::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::queue::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

fn mk(id: i64, old: bool) -> ClientMsg<'static> {
    let mut m = ClientMsg::new_cmd(Cmd::from_str("M"));
    m.args.edit().add_word(Arg::from_bytes(id.to_string()).unwrap());
    if old {
        let mut e = m.tags.edit();
        e.insert_pair(Key::from_str("label"), NoNul::from_str("old"));
    }
    {
        let mut e = m.tags.edit();
        e.insert_pair(Key::from_str("zz"), NoNul::from_str("keep"));
    }
    m
}
fn jm(m: &ClientMsg<'_>) -> Value {
    let ws: Vec<String> = m.args.words().iter().map(|w| w.to_utf8_lossy_string()).collect();
    let marks: Vec<Value> = ws[1..]
        .iter()
        .map(|w| {
            let (a, b) = w.split_once('.').unwrap();
            json!([a.parse::<i64>().unwrap(), b.parse::<i64>().unwrap()])
        })
        .collect();
    assert!(m.tags.get("zz").map(|v| v.as_bytes() == b"keep").unwrap_or(false), "tag lost");
    json!({"id": ws[0].parse::<i64>().unwrap(), "marks": marks,
           "label": opt(m.tags.get("label").map(|v| json!(String::from_utf8_lossy(v.as_bytes()))))})
}
trait Lossy {
    fn to_utf8_lossy_string(&self) -> String;
}
impl Lossy for Arg<'_> {
    fn to_utf8_lossy_string(&self) -> String {
        String::from_utf8_lossy(self.as_bytes()).into_owned()
    }
}

#[derive(Default)]
struct Log {
    log: Vec<Value>,
    asked: Vec<i64>,
}
struct TestAdj {
    id: i64,
    trig: String,
    dm: i64,
    dr: i64,
    c: i64,
    log: Arc<Mutex<Log>>,
}
impl Adjuster for TestAdj {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        self.log.lock().unwrap().asked.push(self.id);
        msg.kind == self.trig.as_str()
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let id: i64 = msg.args.words()[0].to_utf8_lossy_string().parse().unwrap();
        self.log.lock().unwrap().log.push(json!([self.id, id]));
        msg.args.edit().add_word(Arg::from_bytes(format!("{}.{}", self.id, self.c)).unwrap());
        self.c += 1;
        id % self.dm != self.dr
    }
    fn reset(&mut self) {
        self.c = 0;
    }
}

fn obs(n: usize, lab: bool, g: i64) -> Value {
    json!({"n": n, "lab": lab, "g": g, "m": [], "w": -2, "log": [], "asked": [], "label": []})
}

/// Runs the ops after a gopen up to and including the matching gclose's position;
/// pushes one output for the gopen and one per op inside (the gclose is reported by the caller).
fn in_guard(g: &mut QueueEditGuard<'_>, ops: &[Value], k: &mut usize, out: &mut Vec<Value>, base: usize) {
    let see = |g: &QueueEditGuard<'_>| {
        assert_eq!(g.is_empty(), g.len() == 0);
        obs(base + g.len(), g.is_using_labeler(), g.len() as i64)
    };
    out.push(see(g));
    while *k < ops.len() {
        let op = &ops[*k];
        let mut label = json!([]);
        match op["k"].as_str().unwrap() {
            "push" => g.push(mk(op["id"].as_i64().unwrap(), op["old"].as_bool().unwrap())),
            "plab" => {
                let l = g.push_labeled(mk(op["id"].as_i64().unwrap(), op["old"].as_bool().unwrap()));
                label = opt(l.map(|v| json!(String::from_utf8_lossy(v.as_bytes()))));
            }
            "gclear" => {
                g.clear();
            }
            "gopen" => {
                *k += 1;
                let b2 = base + g.len();
                in_guard(&mut g.edit(), ops, k, out, b2);
                if *k >= ops.len() {
                    return;
                }
            }
            "gclose" => return,
            x => panic!("harness: op {x} in guard"),
        }
        *k += 1;
        let mut o = see(g);
        o["label"] = label;
        out.push(o);
    }
}

/// Longer than anything a history lasts.
const FAR: Duration = Duration::from_secs(36525 * 86400 / 4);

fn run_case(c: &Value) -> Value {
    vclock(true);
    let r = run_inner(c);
    vclock(false);
    r
}
fn run_inner(c: &Value) -> Value {
    let ops = c["ops"].as_array().unwrap();
    let log = Arc::new(Mutex::new(Log::default()));
    let mut q = Queue::new();
    let mut out: Vec<Value> = Vec::new();
    let mut k = 0;
    while k < ops.len() {
        let op = &ops[k];
        let mut o = json!({});
        match op["k"].as_str().unwrap() {
            "push" => q.edit().push(mk(op["id"].as_i64().unwrap(), op["old"].as_bool().unwrap())),
            "plab" => {
                let l = q.edit().push_labeled(mk(op["id"].as_i64().unwrap(), op["old"].as_bool().unwrap()));
                o["label"] = opt(l.map(|v| json!(String::from_utf8_lossy(v.as_bytes()))));
            }
            "many" => {
                // many labelled pushes: labels must be pairwise distinct and equal to the tags
                let n = op["n"].as_u64().unwrap();
                let mut seen = std::collections::HashSet::new();
                let mut same = true;
                let l0 = q.len();
                let mut g = q.edit();
                for _ in 0..n {
                    if let Some(l) = g.push_labeled(mk(0, false)) {
                        seen.insert(l.as_bytes().to_vec());
                    }
                    same &= g.len() == 1;
                    g.clear();
                }
                drop(g);
                same &= q.len() == l0;
                o["distinct"] = json!(seen.len());
                o["same"] = json!(same);
            }
            "ext" => {
                let id = op["id"].as_i64().unwrap();
                q.extend([mk(id, false), mk(id + 1, false)]);
            }
            "pop" => {
                let mut w = -2i64;
                let m = q.pop(|d| {
                    w = match d {
                        None => -1,
                        Some(d) if d >= FAR / 2 => -4,
                        Some(d) if d.as_nanos() % 1_000_000 == 0 => d.as_millis() as i64,
                        Some(_) => -3,
                    }
                });
                o["m"] = opt(m.as_ref().map(jm));
                o["w"] = json!(w);
            }
            "adv" => advance_ms(op["ms"].as_i64().unwrap()),
            "lim" => {
                q.set_rate_limit(Duration::from_millis(op["d"].as_u64().unwrap()), op["b"].as_u64().unwrap() as u32);
            }
            "hlim" => {
                let d = match op["u"].as_str().unwrap() {
                    "max" => Duration::MAX,
                    "secs" => Duration::from_secs(u64::MAX),
                    "i64" => Duration::from_secs(i64::MAX as u64),
                    "quarter" => FAR,
                    x => panic!("harness: huge delay {x}"),
                };
                q.set_rate_limit(d, op["b"].as_u64().unwrap() as u32);
            }
            "clear" => q.clear(),
            "reset" => q.reset(),
            "labdef" => {
                q.use_labeler_default();
            }
            "labcus" => {
                let mut n = 0;
                q.use_labeler(move || {
                    n += 1;
                    NoNul::from_bytes(format!("L{n}")).unwrap()
                });
            }
            "labno" => {
                q.use_no_labeler();
            }
            "adjset" => {
                let mk = |a: &Value| TestAdj {
                    id: a["id"].as_i64().unwrap(),
                    trig: a["trig"].as_str().unwrap().to_string(),
                    dm: a["dm"].as_i64().unwrap(),
                    dr: a["dr"].as_i64().unwrap(),
                    c: 0,
                    log: log.clone(),
                };
                let adjs = op["adjs"].as_array().unwrap();
                if adjs.len() == 1 {
                    q.use_adjuster(mk(&adjs[0]));
                } else {
                    let mut m = MultiAdjuster::new();
                    for a in adjs {
                        m.add(mk(a));
                    }
                    assert_eq!(m.len(), adjs.len());
                    q.use_adjuster(m);
                }
            }
            "adjno" => {
                q.use_no_adjuster();
            }
            "adj" => {
                *log.lock().unwrap() = Log::default();
                q.adjust(&ServerMsg::new_cmd(Cmd::from_bytes(op["kind"].as_str().unwrap().as_bytes().to_vec()).unwrap()));
                let l = log.lock().unwrap();
                o["log"] = json!(l.log);
                o["asked"] = json!(l.asked);
            }
            "gopen" => {
                k += 1;
                let base = q.len();
                {
                    let mut g = q.edit();
                    in_guard(&mut g, ops, &mut k, &mut out, base);
                }
                if k >= ops.len() {
                    return Value::Array(out);
                }
                // the gclose itself
            }
            x => panic!("harness: op {x}"),
        }
        k += 1;
        assert_eq!(q.is_empty(), q.len() == 0);
        let mut full = obs(q.len(), q.is_using_labeler(), -1);
        for (kk, v) in o.as_object().unwrap() {
            full[kk] = v.clone();
        }
        out.push(full);
    }
    Value::Array(out)
}

fn gen(r: &mut Rng, edit: bool) -> Value {
    let n = 6 + r.below(30);
    let mut ops: Vec<Value> = Vec::new();
    let mut depth = 0;
    let mut id = 0;
    if edit && r.chance(2, 3) {
        ops.push(json!({"k": "lim", "d": 0, "b": 0}));
    }
    for _ in 0..n {
        id += 1;
        let x = r.below(100);
        let op = if edit {
            if depth > 0 {
                match x {
                    0..=34 => json!({"k": "push", "id": id, "old": r.chance(1, 4)}),
                    35..=59 => json!({"k": "plab", "id": id, "old": r.chance(1, 4)}),
                    60..=69 => json!({"k": "gclear"}),
                    70..=79 if depth < 3 => json!({"k": "gopen"}),
                    _ => json!({"k": "gclose"}),
                }
            } else {
                match x {
                    0..=14 => json!({"k": "push", "id": id, "old": r.chance(1, 4)}),
                    15..=24 => json!({"k": "plab", "id": id, "old": r.chance(1, 4)}),
                    25..=29 => { id += 1; json!({"k": "ext", "id": id - 1}) }
                    30..=44 => json!({"k": "pop"}),
                    45..=54 => json!({"k": "gopen"}),
                    55..=56 => json!({"k": "clear"}),
                    57..=59 => json!({"k": "reset"}),
                    60..=64 => json!({"k": "labdef"}),
                    65..=68 => json!({"k": "labcus"}),
                    69..=70 => json!({"k": "labno"}),
                    71..=78 => {
                        let m = 1 + r.below(3);
                        let adjs: Vec<Value> = (0..m).map(|i| json!({"id": i + 1, "trig": *r.pick(&["NICK", "PART", "NICK"]), "dm": 2 + r.below(4), "dr": r.below(3)})).collect();
                        json!({"k": "adjset", "adjs": adjs})
                    }
                    79 => json!({"k": "adjno"}),
                    80..=94 => json!({"k": "adj", "kind": *r.pick(&["NICK", "PART", "PING"])}),
                    _ => json!({"k": "adv", "ms": r.below(5000)}),
                }
            }
        } else {
            match x {
                0..=29 => json!({"k": "push", "id": id, "old": false}),
                30..=69 => json!({"k": "pop"}),
                70..=89 => json!({"k": "adv", "ms": *r.pick(&[1usize, 1, 999, 1000, 1001, 1999, 2000, 2001, 500, 8000, 30000, 7]) + r.below(3)}),
                90..=91 => json!({"k": "hlim", "u": *r.pick(&["max", "secs", "i64", "quarter"]), "b": *r.pick(&[0u32, 1, 4, 2_000_000_000])}),
                92..=95 => match r.below(8) {
                    0 => json!({"k": "lim", "d": 1, "b": 1_000_000_000}),
                    _ => json!({"k": "lim", "d": *r.pick(&[0, 1, 10, 700, 2000, 5000]), "b": *r.pick(&[0, 1, 2, 4, 9])}),
                },
                96..=97 => json!({"k": "reset"}),
                98 => json!({"k": "clear"}),
                _ => { id += 1; json!({"k": "ext", "id": id - 1}) }
            }
        };
        match op["k"].as_str().unwrap() {
            "gopen" => depth += 1,
            "gclose" => depth -= 1,
            _ => {}
        }
        ops.push(op);
    }
    for _ in 0..depth {
        ops.push(json!({"k": "gclose"}));
    }
    if edit {
        // reveal the contents
        ops.push(json!({"k": "lim", "d": 0, "b": 0}));
        ops.push(json!({"k": "adv", "ms": 1}));
        for _ in 0..40 {
            ops.push(json!({"k": "pop"}));
        }
    }
    json!({ "ops": ops })
}

pub fn record(ctx: &mut Ctx, edit: bool) {
    if let Some(inp) = ctx.input.take() {
        for c in inp {
            ctx.case(c.clone(), || run_case(&c));
        }
        return;
    }
    let mut r = Rng::new(ctx.seed ^ 0x9e);
    if edit {
        let k = if ctx.thorough { 3_000_000 } else { 120_000 };
        for lab in ["labdef", "labno"] {
            let c = json!({"ops": [{"k": lab}, {"k": "push", "id": 1, "old": false}, {"k": "many", "n": k}]});
            ctx.case(c.clone(), || run_case(&c));
        }
    }
    for _ in 0..ctx.n {
        let c = gen(&mut r, edit);
        ctx.case(c.clone(), || run_case(&c));
    }
}
