//! Mode letters, mode sets, mode tables, status prefixes and typed token values.
use crate::core::*;
use serde_json::{json, Value};
use std::num::NonZeroU8;
use vinezombie::names::{cap, isupport, Cap, ISupport, NameMap};
use vinezombie::state::*;
use vinezombie::string::{Arg, Key, Word};

fn letters() -> Vec<Mode> {
    (b'a'..=b'z').flat_map(|l| [l, l - 32]).map(|l| Mode::new(l).unwrap()).collect()
}
fn m(v: &Value) -> Mode {
    Mode::new(v.as_u64().unwrap() as u8).unwrap()
}
fn ty(v: &Value) -> ModeType {
    match v.as_str().unwrap() {
        "A" => ModeType::TypeA,
        "B" => ModeType::TypeB,
        "C" => ModeType::TypeC,
        "D" => ModeType::TypeD,
        _ => ModeType::Status,
    }
}
fn tn(t: Option<ModeType>) -> &'static str {
    match t {
        None => "-",
        Some(ModeType::TypeA) => "A",
        Some(ModeType::TypeB) => "B",
        Some(ModeType::TypeC) => "C",
        Some(ModeType::TypeD) => "D",
        Some(ModeType::Status) => "S",
    }
}
fn raw(i: impl Iterator<Item = Mode>) -> Vec<u8> {
    i.map(u8::from).collect()
}
fn cmp(c: Option<std::cmp::Ordering>) -> &'static str {
    match c {
        None => "none",
        Some(std::cmp::Ordering::Less) => "lt",
        Some(std::cmp::Ordering::Equal) => "eq",
        Some(std::cmp::Ordering::Greater) => "gt",
    }
}
fn set_obs(s: &ModeSet, all: &[ModeSet], script: &[Value]) -> Value {
    let mut it = s.into_iter();
    let ends: Vec<Value> = script
        .iter()
        .map(|d| {
            let x = if d == "f" { it.next() } else { it.next_back() };
            json!([x.map(u8::from).unwrap_or(0), it.len()])
        })
        .collect();
    json!({"it": jb(&raw((*s).into_iter())), "back": jb(&raw(s.into_iter().rev())), "len": s.len(), "empty": s.is_empty(),
        "disp": jb(s.to_string().as_bytes()), "has": letters().iter().map(|l| s.contains(*l)).collect::<Vec<_>>(),
        "ends": ends, "cmp": all.iter().map(|x| cmp(s.partial_cmp(x))).collect::<Vec<_>>(), "same": all.iter().map(|x| s == x).collect::<Vec<_>>()})
}
fn run(o: &Value) -> Value {
    let mut s = [ModeSet::new(), ModeSet::default(), ModeSet::new()];
    let mut t = ModeTypes::new();
    let script = o["script"].as_array().unwrap();
    let mut out = vec![];
    for op in o["ops"].as_array().unwrap() {
        let i = us(&op["i"]).max(1) - 1;
        let j = us(&op["j"]).max(1) - 1;
        let r = match op["k"].as_str().unwrap() {
            "set" => json!(s[i].set(m(&op["l"]))),
            "unset" => json!(s[i].unset(m(&op["l"]))),
            "with" => {
                s[i] = s[j].with(m(&op["l"]));
                json!(true)
            }
            "clear" => {
                s[i] = ModeSet::new();
                json!(true)
            }
            "from" => {
                s[i] = bj(&op["b"]).into_iter().filter_map(Mode::new).collect();
                json!(true)
            }
            "union" => {
                s[i] = s[i].union(s[j]);
                json!(true)
            }
            "inter" => {
                s[i] = s[i].intersection(s[j]);
                json!(true)
            }
            "diff" => {
                s[i] = s[i].difference(s[j]);
                json!(true)
            }
            "tset" => {
                t = ModeTypes::from_set(s[i], ty(&op["ty"]));
                json!(true)
            }
            "tsets" => {
                let q: Vec<usize> = op["q"].as_array().unwrap().iter().map(|x| us(x) - 1).collect();
                let (a, b) = ModeTypes::from_sets(s[q[0]], s[q[1]], s[q[2]], s[q[3]]);
                t = a;
                s[i] = b;
                json!(true)
            }
            "tparse" => {
                let b = bj(&op["b"]);
                let (a, over, rest) = ModeTypes::parse(&b);
                t = a;
                s[i] = over;
                jb(rest)
            }
            "tins" => {
                t.insert(m(&op["l"]), ty(&op["ty"]));
                json!(true)
            }
            "tinss" => {
                t.insert_set(s[i], ty(&op["ty"]));
                json!(true)
            }
            _ => json!(true),
        };
        let shown = t.to_string();
        let (t2, over, rest) = ModeTypes::parse(shown.as_bytes());
        let again = t2 == t && over.is_empty() && rest.is_empty();
        out.push(json!({"r": r, "s": s.iter().map(|x| set_obs(x, &s, script)).collect::<Vec<_>>(),
            "t": {"disp": jb(shown.as_bytes()), "get": letters().iter().map(|l| tn(t.get(*l))).collect::<Vec<_>>(), "again": again}}));
    }
    json!(out)
}
fn status(b: &[u8]) -> Value {
    match StatusModes::parse(b) {
        Err(_) => json!({"ok": false}),
        Ok(s) => json!({"ok": true, "has": letters().iter().map(|l| s.contains(*l)).collect::<Vec<_>>(),
            "pre": letters().iter().map(|l| s.get_prefix(*l).map(|p| p.get()).unwrap_or(0)).collect::<Vec<_>>(),
            "mode": (1..=255u8).map(|p| s.get_mode(NonZeroU8::new(p).unwrap()).map(u8::from).unwrap_or(0)).collect::<Vec<_>>()}),
    }
}
fn add(map: &mut NameMap<ISupport>, k: &str, v: &[u8]) {
    map.edit().insert((Key::from_bytes(k.to_string()).unwrap(), Word::from_bytes(v.to_vec()).unwrap()), ());
}
fn chan(o: &Value) -> Value {
    let mut map: NameMap<ISupport> = NameMap::new();
    add(&mut map, "NICKLEN", b"30");
    for (k, f) in [("CHANMODES", "cm"), ("PREFIX", "px")] {
        if let Some(v) = o[f].get(0) {
            add(&mut map, k, &bj(v));
        }
    }
    let s = ServerChanModes::from_isupport(&map);
    json!(letters().iter().map(|l| tn(s.get(*l))).collect::<Vec<_>>())
}
fn ans<T>(v: Option<Result<T, vinezombie::error::ParseError>>, f: impl FnOnce(T) -> Value) -> Value {
    match v {
        None => json!({"k": "none"}),
        Some(Err(_)) => json!({"k": "err"}),
        Some(Ok(v)) => json!({"k": "ok", "v": f(v)}),
    }
}
fn num(v: impl std::fmt::Display) -> Value {
    jb(v.to_string().as_bytes())
}
fn tok(o: &Value) -> Value {
    let (t, b) = (o["tok"].as_str().unwrap(), bj(&o["b"]));
    if t == "sasl" {
        let mut map: NameMap<Cap> = NameMap::new();
        if o["present"] == true {
            map.edit().insert((Key::from_bytes("sasl").unwrap(), Word::from_bytes(b).unwrap()), ());
        }
        return ans(map.get_parsed(cap::SASL), |v| json!(v.iter().map(|w| jb(w.as_bytes())).collect::<Vec<_>>()));
    }
    let mut map: NameMap<ISupport> = NameMap::new();
    if o["around"] == true {
        // neighbours in key order that must not be confused with the token
        let mut near = t.to_string();
        near.pop();
        add(&mut map, &near, b"77");
        add(&mut map, &format!("{t}A"), b"88");
        add(&mut map, &t.to_ascii_lowercase(), b"99");
    }
    if o["present"] == true {
        add(&mut map, t, &b);
    }
    macro_rules! go {
        ($($n:ident)* => $f:expr; $($rest:tt)*) => { $(if t == stringify!($n) { return ans(map.get_parsed(isupport::$n), $f); })* go!($($rest)*) };
        () => { panic!("harness: token {t}") };
    }
    go! {
        ETRACE KNOCK SAFELIST UTF8ONLY WHOX => |_| json!([]);
        AWAYLEN CHANNELLEN HOSTLEN KICKLEN MODES NICKLEN TOPICLEN USERLEN => |v| num(v);
        MONITOR SILENCE => |v| v.map(num).unwrap_or(json!([]));
        BOT CALLERID EXCEPTS INVEX => |v| jb(&[u8::from(v)]);
        NETWORK => |v| jb(v.as_bytes());
        CHANMODES USERMODES => |v| num(v);
        PREFIX => |v| json!(letters().iter().map(|l| if v.contains(*l) { v.get_prefix(*l).map(|p| p.get() as i64).unwrap_or(0) } else { -1 }).collect::<Vec<_>>());
    }
}
fn letter(b: u8) -> Value {
    match Mode::new(b) {
        None => json!({"ok": false}),
        Some(x) => json!({"ok": true, "u8": x.into_nonzero_u8().get(), "ch": x.into_char() as u32, "disp": jb(x.to_string().as_bytes()),
            "arg": jb(Arg::from(x).as_bytes()), "cmp": letters().iter().map(|l| cmp(Some(x.cmp(l)))).collect::<Vec<_>>()}),
    }
}
fn ask(o: &Value) -> Value {
    match o["op"].as_str().unwrap() {
        "modes" => run(o),
        "status" => status(&bj(&o["b"])),
        "chan" => chan(o),
        "tok" => tok(o),
        "letter" => letter(us(&o["b"]) as u8),
        "mtype" => {
            let t = ty(&o["ty"]);
            json!([t.is_listlike(), t.needs_arg_to_set(), t.needs_arg_to_unset()])
        }
        x => panic!("harness: op {x}"),
    }
}
const TOKS: &[&str] = &["ETRACE", "KNOCK", "SAFELIST", "UTF8ONLY", "WHOX", "AWAYLEN", "CHANNELLEN", "HOSTLEN", "KICKLEN", "MODES", "NICKLEN", "TOPICLEN", "USERLEN",
    "MONITOR", "SILENCE", "BOT", "CALLERID", "EXCEPTS", "INVEX", "NETWORK", "CHANMODES", "USERMODES", "PREFIX", "sasl"];
fn anyletter(r: &mut Rng) -> u8 {
    let l = if r.chance(1, 2) { *r.pick(b"aAbBzZmMoOvV") } else { b'a' + r.below(26) as u8 };
    if r.chance(1, 3) {
        l ^ 32
    } else {
        l
    }
}
fn table(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(14) {
        match r.below(9) {
            0..=2 => v.push(b','),
            3 => v.push(*r.pick(b"1@[`{ \xff\x00-")),
            _ => v.push(anyletter(r)),
        }
    }
    v
}
fn prefix(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 12) {
        return r.bytes(b"()ov@+\xff", 8);
    }
    let n = r.below(7);
    let mut v = vec![b'('];
    let mut ls: Vec<u8> = b"qaohvYyVOQ".to_vec();
    for _ in 0..n {
        if r.chance(1, 12) {
            v.push(*r.pick(b"1!\xe9("));
        } else if r.chance(1, 15) {
            v.push(anyletter(r));
        } else {
            v.push(ls.remove(r.below(ls.len())));
        }
    }
    v.push(b')');
    let mut ps: Vec<u8> = b"~&@%+!^.$*".to_vec();
    let k = if r.chance(1, 3) { r.below(n + 2) } else { n };
    for _ in 0..k {
        if r.chance(1, 15) {
            v.push(*r.pick(b"\xe2\x80)(@\x01\x7f"));
        } else {
            v.push(ps.remove(r.below(ps.len())));
        }
    }
    v
}
fn word(mut v: Vec<u8>) -> Vec<u8> {
    v.retain(|b| !b"\0\r\n ".contains(b));
    v
}
fn value(r: &mut Rng, t: &str) -> Vec<u8> {
    if r.chance(1, 10) {
        return word(r.bytes(b"0159+-,gIeaA()@\xff", 6));
    }
    match t {
        "CHANMODES" | "USERMODES" => word(table(r)),
        "PREFIX" => word(prefix(r)),
        "BOT" | "CALLERID" | "EXCEPTS" | "INVEX" => r.bytes(b"gIeBbzZaA1@[`{", 2),
        "sasl" => r.bytes(b"PLAINplain,,-", 16),
        "NETWORK" => r.bytes(b"Libera.Chat\xc3\xa9", 9),
        _ => {
            let base: i64 = *r.pick(&[0, 1, 9, 10, 255, 256, 999, 65535, 65536, 4294967295, 4294967296, 42949672960]);
            let n = (base + r.below(3) as i64 - 1).max(0);
            let z = "0".repeat(if r.chance(1, 5) { 1 + r.below(12) } else { 0 });
            format!("{}{z}{n}{}", r.pick(&["", "", "", "", "", "+", "-"]), r.pick(&["", "", "", "", "", "", ".", "x"])).into_bytes()
        }
    }
}
fn gen_ops(r: &mut Rng) -> Value {
    let tys = ["A", "B", "C", "D", "S"];
    let ops: Vec<Value> = (0..1 + r.below(9))
        .map(|_| {
            let i = 1 + r.below(3);
            let j = 1 + r.below(3);
            match r.below(14) {
                0 | 1 => json!({"k": "set", "i": i, "l": anyletter(r)}),
                2 => json!({"k": "unset", "i": i, "l": anyletter(r)}),
                3 => json!({"k": "with", "i": i, "j": j, "l": anyletter(r)}),
                4 | 5 => {
                    let n = if r.chance(1, 5) { 60 } else { 7 };
                    let b: Vec<u8> = (0..r.below(n)).map(|_| anyletter(r)).collect();
                    json!({"k": "from", "i": i, "b": jb(&b)})
                }
                6 => json!({"k": "union", "i": i, "j": j}),
                7 => json!({"k": "inter", "i": i, "j": j}),
                8 => json!({"k": "diff", "i": i, "j": j}),
                9 => json!({"k": "tset", "i": i, "ty": r.pick(&tys)}),
                10 => json!({"k": "tsets", "i": i, "q": [1 + r.below(3), 1 + r.below(3), 1 + r.below(3), 1 + r.below(3)]}),
                11 => json!({"k": "tparse", "i": i, "b": jb(&table(r))}),
                12 => json!({"k": "tins", "l": anyletter(r), "ty": r.pick(&tys)}),
                _ => json!({"k": "tinss", "i": i, "ty": r.pick(&tys)}),
            }
        })
        .collect();
    let script: Vec<&str> = (0..r.below(8)).map(|_| *r.pick(&["f", "b"])).collect();
    json!({"op": "modes", "ops": ops, "script": script})
}
pub fn record(ctx: &mut Ctx) {
    if let Some(inp) = ctx.input.take() {
        for o in inp {
            let c = o.clone();
            ctx.case(o, move || ask(&c));
        }
        return;
    }
    let mut r = Rng::new(ctx.seed ^ 0x30de);
    let mut cases: Vec<Value> = (0..=255).map(|b| json!({"op": "letter", "b": b})).collect();
    for t in ["A", "B", "C", "D", "S"] {
        cases.push(json!({"op": "mtype", "ty": t}));
    }
    for t in TOKS {
        for around in [false, true] {
            cases.push(json!({"op": "tok", "tok": t, "b": [], "present": false, "around": around}));
            cases.push(json!({"op": "tok", "tok": t, "b": [], "present": true, "around": around}));
        }
    }
    while cases.len() < ctx.n {
        cases.push(match r.below(9) {
            0..=3 => gen_ops(&mut r),
            4 => json!({"op": "status", "b": jb(&prefix(&mut r))}),
            5 => {
                let cm = word(table(&mut r));
                let px = word(prefix(&mut r));
                json!({"op": "chan", "cm": if r.chance(1, 8) { json!([]) } else { json!([jb(&cm)]) }, "px": if r.chance(1, 8) { json!([]) } else { json!([jb(&px)]) }})
            }
            _ => {
                let t = *r.pick(TOKS);
                json!({"op": "tok", "tok": t, "b": jb(&value(&mut r, t)), "present": !r.chance(1, 12), "around": r.chance(1, 3)})
            }
        });
    }
    for c in cases {
        let d = c.clone();
        ctx.case(c, move || ask(&d));
    }
}
