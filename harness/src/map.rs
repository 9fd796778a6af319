//! Keyed collections: tag sets, name maps and client state under arbitrary edit histories.
use crate::core::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::Mutex;
use vinezombie::client::state::ClientStateKey;
use vinezombie::client::ClientState;
use vinezombie::ircmsg::Tags;
use vinezombie::names::{cap::SASL, isupport::NETWORK, Cap, ISupport, Name, NameMap};
use vinezombie::string::{Key, NoNul, Word};

static ALIVE: Mutex<BTreeSet<(i64, usize)>> = Mutex::new(BTreeSet::new());
static BAD: Mutex<bool> = Mutex::new(false);
static SERIAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
/// A value that knows whether it is alive: a double drop or a read after drop is recorded.
#[derive(Debug)]
pub struct Tracked {
    id: i64,
    serial: usize,
}
impl Tracked {
    fn new(id: i64) -> Tracked {
        let serial = SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        ALIVE.lock().unwrap().insert((id, serial));
        Tracked { id, serial }
    }
    fn id(&self) -> i64 {
        if !ALIVE.lock().unwrap().contains(&(self.id, self.serial)) {
            *BAD.lock().unwrap() = true;
        }
        self.id
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if !ALIVE.lock().unwrap().remove(&(self.id, self.serial)) {
            *BAD.lock().unwrap() = true;
        }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(self.id())
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for Tracked {}
impl std::hash::Hash for Tracked {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}

fn key(o: &Value) -> Key<'static> {
    Key::from_bytes(bj(&o["key"])).unwrap()
}
fn val(o: &Value) -> Word<'static> {
    Word::from_bytes(bj(&o["v"])).unwrap()
}
fn nnv(o: &Value) -> NoNul<'static> {
    NoNul::from_bytes(bj(&o["v"])).unwrap()
}
fn kop(o: &Value) -> &str {
    o["k"].as_str().unwrap()
}
fn triple(k: &[u8], v: &[u8], x: i64) -> Value {
    json!([jb(k), jb(v), x])
}
fn alive(dump: &mut Value, tracked: bool) {
    let ids: Vec<i64> = if tracked { ALIVE.lock().unwrap().iter().map(|p| p.0).collect() } else { vec![] };
    dump["alive"] = json!(ids);
    dump["bad"] = json!(*BAD.lock().unwrap());
}
fn res(rs: &mut Vec<Value>, r: Value) {
    rs.push(json!({"r": r}));
}
fn o3(x: Option<Value>) -> Value {
    x.unwrap_or_else(|| json!([]))
}

trait Extra: 'static + Clone {
    fn mk(x: i64) -> Self;
    fn get(&self) -> i64;
    const T: bool;
}
impl Extra for Tracked {
    fn mk(x: i64) -> Self {
        Tracked::new(x)
    }
    fn get(&self) -> i64 {
        self.id()
    }
    const T: bool = true;
}
impl Extra for () {
    fn mk(_: i64) -> Self {}
    fn get(&self) -> i64 {
        0
    }
    const T: bool = false;
}

macro_rules! namemap_run {
    ($fname:ident, $class:ty, $known:ident) => {
        fn $fname<V: Extra + std::fmt::Debug>(ops: &[Value]) -> (NameMap<$class, V>, Vec<Value>) {
            type M<V> = NameMap<$class, V>;
            let mut m: M<V> = NameMap::new();
            let mut rs = vec![];
            let dump = |m: &M<V>| {
                let mut e = vec![];
                for k in m.keys() {
                    let u = m.get_union_raw(k);
                    let x = m.get_extra_raw(k);
                    e.push(match (u, x) {
                        (Some(u), Some(x)) => triple(u.0.as_bytes(), u.1.as_bytes(), x.get()),
                        _ => triple(k.as_bytes(), b"<lost>", -1),
                    });
                }
                let back: Vec<Value> = m.keys().rev().map(|k| jb(k.as_bytes())).collect();
                let mut d = json!({"e": e, "back": back, "len": m.len(), "klen": m.keys().len(), "empty": m.is_empty()});
                alive(&mut d, V::T);
                d
            };
            macro_rules! read_op {
                ($m:expr, $o:expr) => {{
                    let o = $o;
                    match kop(o) {
                        "get" => {
                            let u = $m.get_union_raw(&key(o)).map(|u| (u.0.as_bytes().to_vec(), u.1.as_bytes().to_vec()));
                            let x = $m.get_extra_raw(&key(o)).map(|x| x.get());
                            // a name that stands for this key has to find the same entry
                            let known = bj(&o["key"]) == Name::<$class>::as_raw(&$known).as_bytes();
                            let tu = $m.get_union($known).map(|u| (u.0.as_bytes().to_vec(), u.1.as_bytes().to_vec()));
                            let tx = $m.get_extra($known).map(|x| x.get());
                            let tb = $m.get_both($known).map(|b| b.1.get());
                            let parsed = ($m.get_parsed($known).map(|p| p.ok()), $m.get_both($known).map(|b| b.0.ok()));
                            let direct = $m.get_union($known).map(|u| <$known as vinezombie::names::NameValued<$class>>::from_union(u).ok());
                            let typed = !known || (tu == u && tx == x && tb == x && parsed.0 == direct && parsed.1 == direct);
                            Some(match (u, x) {
                                _ if !typed => json!([[], [], -3]),
                                (Some((k, v)), Some(x)) => triple(&k, &v, x),
                                (None, None) => json!([]),
                                _ => json!([[], [], -2]),
                            })
                        }
                        "setx" => Some(match if bj(&o["key"]) != Name::<$class>::as_raw(&$known).as_bytes() {
                            $m.get_extra_raw_mut(&key(o))
                        } else if o["x"].as_i64().unwrap() % 2 == 0 {
                            $m.get_extra_mut($known)
                        } else {
                            $m.get_both_mut($known).map(|b| b.1)
                        } {
                            Some(r) => {
                                let old = std::mem::replace(r, V::mk(o["x"].as_i64().unwrap()));
                                json!([old.get()])
                            }
                            None => json!([]),
                        }),
                        "len" => Some(json!([$m.len(), $m.is_empty() as i64])),
                        "clear" => {
                            $m.clear();
                            Some(json!([]))
                        }
                        _ => None,
                    }
                }};
            }
            let mut i = 0;
            while i < ops.len() {
                let o = &ops[i];
                i += 1;
                match kop(o) {
                    "open" => {
                        res(&mut rs, json!([]));
                        let mut g = m.edit();
                        let mut leak = false;
                        while i < ops.len() {
                            let o = &ops[i];
                            i += 1;
                            if kop(o) == "close" || kop(o) == "leak" {
                                leak = kop(o) == "leak";
                                break;
                            }
                            if let Some(r) = read_op!(g, o) {
                                res(&mut rs, r);
                                continue;
                            }
                            let xv = || V::mk(o["x"].as_i64().unwrap());
                            let r = match kop(o) {
                                "insert" => o3(g.insert((key(o), val(o)), xv()).map(|(u, x)| triple(u.0.as_bytes(), u.1.as_bytes(), x.get()))),
                                "try" => o3(g.try_insert((key(o), val(o)), xv()).map(|(u, x)| triple(u.0.as_bytes(), u.1.as_bytes(), x.get()))),
                                "upsert" => o3(g.insert_or_update((key(o), val(o)), xv()).map(|u| json!([jb(u.0.as_bytes()), jb(u.1.as_bytes())]))),
                                "remove" if bj(&o["key"]) == Name::<$class>::as_raw(&$known).as_bytes() => {
                                    o3(g.remove($known).map(|(u, x)| triple(u.0.as_bytes(), u.1.as_bytes(), x.get())))
                                }
                                "remove" => o3(g.remove_raw(&key(o)).map(|(u, x)| triple(u.0.as_bytes(), u.1.as_bytes(), x.get()))),
                                x => panic!("op {x}"),
                            };
                            res(&mut rs, r);
                        }
                        if leak {
                            std::mem::forget(g);
                        } else {
                            drop(g);
                        }
                        rs.push(dump(&m));
                    }
                    "clone" => {
                        m = m.clone();
                        rs.push(dump(&m));
                    }
                    _ => {
                        let r = read_op!(m, o).expect("op outside guard");
                        res(&mut rs, r);
                    }
                }
            }
            (m, rs)
        }
    };
}
namemap_run!(run_cap, Cap, SASL);
namemap_run!(run_isup, ISupport, NETWORK);

fn run_tags(ops: &[Value]) -> (Tags<'static>, Vec<Value>) {
    let mut m: Tags<'static> = Tags::new();
    let mut rs = vec![];
    let dump = |m: &Tags<'static>| {
        // entries as serialised, each looked up again
        let v = serde_json::to_string(m).map(|s| s.matches("\":").count()).unwrap_or(0);
        let mut w = vec![];
        m.write_to(&mut w).unwrap();
        let mut e = vec![];
        let text = String::from_utf8(w).unwrap();
        for part in text.trim_start_matches('@').split(';').filter(|p| !p.is_empty()) {
            let k = part.split('=').next().unwrap();
            let got = m.get(Key::from_bytes(k.as_bytes().to_vec()).unwrap()).map(|v| v.as_bytes().to_vec());
            e.push(match got {
                Some(v) => triple(k.as_bytes(), &v, 0),
                None => triple(k.as_bytes(), b"<lost>", -1),
            });
        }
        let mut back: Vec<Value> = e.iter().map(|x| x[0].clone()).collect();
        back.reverse();
        let mut d = json!({"e": e, "back": back, "len": m.len(), "klen": v, "empty": m.is_empty()});
        alive(&mut d, false);
        d
    };
    macro_rules! read_op {
        ($m:expr, $o:expr) => {{
            let o = $o;
            match kop(o) {
                "get" => Some(o3($m.get(key(o)).map(|v| triple(key(o).as_bytes(), v.as_bytes(), 0)))),
                "setv" => Some(match $m.get_mut(key(o)) {
                    Some(r) => {
                        let old = std::mem::replace(r, nnv(o));
                        json!([jb(old.as_bytes())])
                    }
                    None => json!([]),
                }),
                "len" => Some(json!([$m.len(), $m.is_empty() as i64])),
                _ => None,
            }
        }};
    }
    let mut i = 0;
    while i < ops.len() {
        let o = &ops[i];
        i += 1;
        match kop(o) {
            "open" => {
                res(&mut rs, json!([]));
                let mut g = m.edit();
                let mut leak = false;
                while i < ops.len() {
                    let o = &ops[i];
                    i += 1;
                    if kop(o) == "close" || kop(o) == "leak" {
                        leak = kop(o) == "leak";
                        break;
                    }
                    if let Some(r) = read_op!(g, o) {
                        res(&mut rs, r);
                        continue;
                    }
                    let kv = |v: NoNul<'_>| triple(key(o).as_bytes(), v.as_bytes(), 0);
                    let r = match kop(o) {
                        "insert" if bj(&o["v"]).is_empty() => o3(g.insert_key(key(o)).map(kv)),
                        "insert" => o3(g.insert_pair(key(o), nnv(o)).map(kv)),
                        "remove" => o3(g.remove(key(o)).map(kv)),
                        "clear" => {
                            g.clear();
                            json!([])
                        }
                        x => panic!("op {x}"),
                    };
                    res(&mut rs, r);
                }
                if leak {
                    std::mem::forget(g);
                } else {
                    drop(g);
                }
                rs.push(dump(&m));
            }
            "clone" => {
                m = m.clone();
                rs.push(dump(&m));
            }
            "from" => {
                let pairs: Vec<(Vec<u8>, Vec<u8>)> =
                    o["pairs"].as_array().unwrap().iter().map(|p| (bj(&p[0]), bj(&p[1]))).collect();
                m = match o["how"].as_str().unwrap() {
                    "iter" => pairs.iter().map(|(k, v)| (Key::from_bytes(k.clone()).unwrap(), NoNul::from_bytes(v.clone()).unwrap())).collect(),
                    "parse" => {
                        let s: Vec<String> = pairs.iter().map(|(k, v)| format!("{}={}", String::from_utf8_lossy(k), String::from_utf8_lossy(v))).collect();
                        Tags::parse(Word::from_bytes(s.join(";").into_bytes()).unwrap()).owning()
                    }
                    _ => {
                        let s: Vec<String> = pairs.iter().map(|(k, v)| format!("{}:{}", json!(String::from_utf8_lossy(k)), json!(String::from_utf8_lossy(v)))).collect();
                        let text = format!("{{{}}}", s.join(","));
                        let t: Tags<'static> = serde_json::from_str(&text).unwrap();
                        t
                    }
                };
                rs.push(dump(&m));
            }
            _ => {
                let r = read_op!(m, o).expect("op outside guard");
                res(&mut rs, r);
            }
        }
    }
    (m, rs)
}

macro_rules! slots {
    ($($n:ident),*) => {
        $(#[derive(Default)] struct $n; impl ClientStateKey for $n { type Value = Tracked; })*
        fn cs_op(st: &mut ClientState, o: &Value) -> Value {
            let mut n = 0usize;
            let want = bj(&o["key"])[0] as usize - 97;
            $( if n == want {
                return match kop(o) {
                    "insert" => { let old = o3(st.get::<$n>().map(|x| json!([x.id()]))); st.insert::<$n>(Tracked::new(o["x"].as_i64().unwrap())); old }
                    "get" => o3(st.get::<$n>().map(|x| json!([x.id()]))),
                    "setx" => match st.get_mut::<$n>() { Some(r) => { let old = std::mem::replace(r, Tracked::new(o["x"].as_i64().unwrap())); json!([old.id()]) } None => json!([]) },
                    x => panic!("op {x}"),
                };
            } n += 1; )*
            let _ = n;
            panic!("slot")
        }
    };
}
slots!(S0, S1, S2, S3, S4, S5);
fn run_cs(ops: &[Value]) -> Vec<Value> {
    let mut st = ClientState::new();
    let mut rs = vec![];
    for o in ops {
        res(&mut rs, cs_op(&mut st, o));
    }
    let mut d = json!({});
    alive(&mut d, true);
    rs.push(d);
    drop(st);
    let mut d = json!({});
    alive(&mut d, true);
    rs.push(d);
    rs
}

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn reset() {
    ALIVE.lock().unwrap().clear();
    *BAD.lock().unwrap() = false;
}
fn run(c: &Value) -> Value {
    reset();
    let a = c["a"].as_array().unwrap();
    let empty = vec![];
    let b = c["b"].as_array().unwrap_or(&empty);
    macro_rules! both {
        ($f:expr) => {{
            let (m1, r1) = $f(a);
            reset();
            let (m2, r2) = $f(b);
            let rel = json!({"eq": m1 == m2, "hash": hash(&m1) == hash(&m2)});
            reset();
            std::mem::forget((m1, m2));
            (r1, r2, rel)
        }};
    }
    let (r1, r2, mut rel) = match c["m"].as_str().unwrap() {
        "cap" => {
            // contents of the first map must be gone once it is dropped
            let (m1, r1) = run_cap::<Tracked>(a);
            drop(m1);
            let left: Vec<i64> = ALIVE.lock().unwrap().iter().map(|p| p.0).collect();
            let bad = *BAD.lock().unwrap();
            reset();
            let (_, r2, mut rel) = both!(run_cap::<Tracked>);
            rel["left"] = json!(left);
            rel["bad"] = json!(bad);
            (r1, r2, rel)
        }
        "isup" => both!(run_isup::<()>),
        "tags" => {
            let (m1, r1) = run_tags(a);
            let (m2, r2) = run_tags(b);
            // the guards of copies of both, compared while they are open
            let (mut m3, mut m4) = (m1.clone(), m2.clone());
            let (mut g3, mut g4) = (m3.edit(), m4.edit());
            for (g, ops) in [(&mut g3, &c["ga"]), (&mut g4, &c["gb"])] {
                for o in ops.as_array().into_iter().flatten() {
                    match kop(o) {
                        "insert" => drop(g.insert_pair(key(o), nnv(o))),
                        _ => drop(g.remove(key(o))),
                    }
                }
            }
            let (geq, ghash) = (g3 == g4 && g4 == g3, hash(&g3) == hash(&g4));
            drop((g3, g4));
            let mut rel = json!({"eq": m1 == m2 && m1.to_string() == m2.to_string() && m1.cmp(&m2) == std::cmp::Ordering::Equal
                                 && serde_json::to_string(&m1).unwrap() == serde_json::to_string(&m2).unwrap(),
                             "hash": hash(&m1) == hash(&m2)});
            rel["guards"] = json!([geq, ghash]);
            (r1, r2, rel)
        }
        _ => (run_cs(a), vec![], json!({"eq": false, "hash": false})),
    };
    for k in ["left", "bad"] {
        if rel.get(k).is_none() {
            rel[k] = if k == "left" { json!([]) } else { json!(false) };
        }
    }
    json!({"a": r1, "b": r2, "rel": rel})
}

const KEYS: &[&str] = &["a", "b", "c", "d", "e", "f", "account", "+draft/x", "NETWORK", "sasl", "z", "aa"];
fn key_no(i: usize) -> Vec<u8> {
    KEYS.get(i).map(|k| k.as_bytes().to_vec()).unwrap_or_else(|| format!("k{i}").into_bytes())
}
fn gen_ops(r: &mut Rng, m: &str, nk: usize) -> Vec<Value> {
    let mut ops = vec![];
    let mut x = 0;
    let k = |r: &mut Rng| jb(&key_no(r.below(nk)));
    let v = |r: &mut Rng| jb(["", "1", "2", "value"][r.below(4)].as_bytes());
    if m == "cs" {
        for _ in 0..3 + r.below(20) {
            x += 1;
            ops.push(json!({"k": *r.pick(&["insert", "insert", "get", "setx"]), "key": jb(&[97 + r.below(6) as u8]), "v": [], "x": x}));
        }
        return ops;
    }
    let mut open = false;
    for _ in 0..if nk > KEYS.len() { 60 + r.below(60) } else { 4 + r.below(24) } {
        x += 1;
        let kk = if open {
            match r.below(20) {
                0..=6 => "insert",
                7..=9 => "remove",
                10..=11 => "get",
                12 => if m == "tags" { "setv" } else { "setx" },
                13 => "len",
                14 => if r.chance(1, 3) { "clear" } else { "get" },
                15 => if m == "tags" { "insert" } else { "upsert" },
                16 => if m == "tags" { "insert" } else { "try" },
                17 => if r.chance(1, 4) { "leak" } else { "close" },
                _ => if r.chance(1, 3) { "close" } else { "insert" },
            }
        } else {
            match r.below(9) {
                0 => "get",
                1 => if m == "tags" { "setv" } else { "setx" },
                2 => "len",
                3 => if m == "tags" { "from" } else if r.chance(1, 4) { "clear" } else { "get" },
                4 => if r.chance(1, 3) { "clone" } else { "open" },
                _ => "open",
            }
        };
        match kk {
            "open" => open = true,
            "close" | "leak" => open = false,
            _ => (),
        }
        let mut o = json!({"k": kk, "key": k(r), "v": v(r), "x": if m == "isup" || m == "tags" { 0 } else { x }});
        if kk == "from" {
            o["how"] = json!(*r.pick(&["iter", "serde", "parse"]));
            o["pairs"] = json!(if r.chance(1, 2) {
                // long lists with many repeated keys and values that tell the repetitions apart
                (0..20 + r.below(50)).map(|i| json!([k(r), jb(format!("v{i}").as_bytes())])).collect::<Vec<_>>()
            } else {
                (0..r.below(7)).map(|_| json!([k(r), v(r)])).collect::<Vec<_>>()
            });
        }
        ops.push(o);
    }
    if open {
        ops.push(json!({"k": "close", "key": [], "v": [], "x": 0}));
    }
    ops
}
pub fn record(ctx: &mut Ctx) {
    if let Some(inp) = ctx.input.take() {
        for c in inp {
            let mut c = c;
            for k in ["st", "out"] {
                c.as_object_mut().unwrap().remove(k);
            }
            let c2 = c.clone();
            ctx.case(c, || run(&c2));
        }
        return;
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n {
        let m = *r.pick(&["cap", "cap", "isup", "tags", "tags", "cs"]);
        let nk = if r.chance(1, 40) { 20 + r.below(60) } else { 2 + r.below(KEYS.len() - 1) };
        let a = gen_ops(&mut r, m, nk);
        let b = if m == "cs" { vec![] } else if r.chance(1, 2) { gen_ops(&mut r, m, nk) } else { shuffle_same(&mut r, m, &a) };
        let mut c = json!({"op": "map", "m": m, "a": a, "b": b});
        if m == "tags" {
            let ga: Vec<Value> = (0..r.below(6))
                .map(|_| json!({"k": if r.chance(4, 5) { "insert" } else { "remove" }, "key": jb(&key_no(r.below(nk.min(7)))), "v": jb(r.pick(&[&b""[..], b"1", b"2"])), "x": 0}))
                .collect();
            let mut gb = ga.clone();
            for i in (1..gb.len()).rev() {
                gb.swap(i, r.below(i + 1));
            }
            if !gb.is_empty() && r.chance(1, 3) {
                gb.pop();
            }
            c["ga"] = json!(ga);
            c["gb"] = json!(gb);
        }
        let c2 = c.clone();
        ctx.case(c, || run(&c2));
    }
}
/// A different history with (often) the same outcome: the surviving inserts in another order.
fn shuffle_same(r: &mut Rng, m: &str, a: &[Value]) -> Vec<Value> {
    let mut last: std::collections::BTreeMap<String, Value> = Default::default();
    for o in a {
        match kop(o) {
            "insert" => {
                last.insert(o["key"].to_string(), o.clone());
            }
            "remove" => {
                last.remove(&o["key"].to_string());
            }
            "clear" => last.clear(),
            _ => (),
        }
    }
    let mut v: Vec<Value> = last.into_values().collect();
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    if m == "tags" && r.chance(1, 2) {
        let pairs: Vec<Value> = v.iter().map(|o| json!([o["key"], o["v"]])).collect();
        return vec![json!({"k": "from", "how": *r.pick(&["iter", "serde", "parse"]), "pairs": pairs, "key": [], "v": [], "x": 0})];
    }
    let mut ops = vec![];
    let mut open = false;
    let mark = |k: &str| json!({"k": k, "key": [], "v": [], "x": 0});
    for o in v {
        if !open {
            ops.push(mark("open"));
            open = true;
        }
        ops.push(o);
        if r.chance(1, 4) {
            ops.push(mark("close"));
            open = false;
        }
    }
    if open {
        ops.push(mark("close"));
    }
    ops
}
