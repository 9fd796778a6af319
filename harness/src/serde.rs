//! Storing and loading: strings, messages, numerics, settings.
use crate::core::*;
use crate::msg::*;
use ::serde::de::value::{BytesDeserializer, Error as VErr, MapDeserializer, SeqDeserializer, StrDeserializer, StringDeserializer};
use ::serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use vinezombie::client::auth::{AnySasl, Clear, LoadSecret, Sasl, Secret};
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::nick::{Nicks, Suffix, SuffixStrategy, SuffixType};
use vinezombie::client::register::Options;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

fn txt(v: &Value) -> String {
    String::from_utf8_lossy(&bj(v)).into_owned()
}
fn no() -> Value {
    json!({"ok": false})
}
fn doc_json(c: &Value) -> Value {
    let server = c["side"] == "server";
    let src = c["src"].as_array().unwrap();
    let mut o = serde_json::Map::new();
    let kind = if c["kind"][0] == "n" { c["kind"][1].clone() } else { Value::String(txt(&c["kind"][1])) };
    let args: Vec<Value> = c["args"].as_array().unwrap().iter().map(|a| Value::String(txt(a))).collect();
    if server {
        let s = match src.len() {
            0 => Value::Null,
            1 => json!({"nick": txt(&src[0]), "userhost": null}),
            _ => json!({"nick": txt(&src[0]), "userhost": {"user": src[1].get(0).map(txt), "host": txt(&src[2])}}),
        };
        o.insert("source".into(), s);
        o.insert("kind".into(), kind);
    } else {
        o.insert("cmd".into(), kind);
    }
    o.insert("args".into(), Value::Array(args));
    Value::Object(o)
}
/// The document as text, with the tags in the given order and repetitions kept.
fn doc_text(c: &Value) -> String {
    let rest = doc_json(c).to_string();
    let tags: Vec<String> = c["tags"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| format!("{}:{}", Value::String(txt(&p[0])), Value::String(txt(&p[1]))))
        .collect();
    format!("{{\"tags\":{{{}}},{}", tags.join(","), &rest[1..])
}
fn again<T: Serialize + DeserializeOwned + PartialEq>(m: &T) -> bool {
    let t = serde_json::to_string(m).ok();
    let v = serde_json::to_value(m).ok();
    let a = t.as_ref().and_then(|t| serde_json::from_str::<T>(t).ok());
    let b = t.as_ref().and_then(|t| serde_json::from_slice::<T>(t.as_bytes()).ok());
    let c = v.and_then(|v| serde_json::from_value::<T>(v).ok());
    let d = t.as_ref().and_then(|t| serde_json::from_reader::<_, T>(t.as_bytes()).ok());
    a.as_ref() == Some(m) && b.as_ref() == Some(m) && c.as_ref() == Some(m) && d.as_ref() == Some(m)
}
fn loads<T: DeserializeOwned + Serialize + PartialEq>(text: &str, value: bool, show: impl Fn(&T) -> Value) -> Vec<Value> {
    let mut out = vec![serde_json::from_str::<T>(text).ok(), serde_json::from_reader::<_, T>(text.as_bytes()).ok()];
    if value {
        // Loading by way of a `Value`, which keeps one of several equal keys.
        out.push(serde_json::from_str::<Value>(text).ok().and_then(|v| serde_json::from_value::<T>(v).ok()));
    }
    out.into_iter()
        .map(|r| match r {
            None => no(),
            Some(m) => {
                let mut v = show(&m);
                v["rt"] = json!(again(&m));
                v
            }
        })
        .collect()
}
fn run_doc(c: &Value) -> Value {
    let t = doc_text(c);
    let tags = c["tags"].as_array().unwrap();
    let once = (0..tags.len()).all(|k| tags[..k].iter().all(|p| p[0] != tags[k][0]));
    Value::Array(if c["side"] == "server" { loads::<ServerMsg<'static>>(&t, once, jserver) } else { loads::<ClientMsg<'static>>(&t, once, jclient) })
}
fn back<T: Serialize + DeserializeOwned + PartialEq>(m: T, show: impl Fn(&T) -> Value) -> Value {
    let t = serde_json::to_string(&m).unwrap();
    let mut outs = loads::<T>(&t, true, &show);
    let loaded = serde_json::from_str::<T>(&t).ok();
    for v in outs.iter_mut() {
        if v["ok"] != true {
            *v = json!({"rt": false, "tags": [], "src": [], "kind": [], "args": [], "long": false});
        } else {
            v["rt"] = json!(v["rt"] == true && loaded.as_ref() == Some(&m));
        }
    }
    Value::Array(outs)
}
fn run_line(c: &Value) -> Value {
    let line = bj(&c["in"]);
    if c["side"] == "server" {
        match ServerMsg::parse(line) {
            Ok(m) => back(m.owning(), jserver),
            Err(_) => json!([]),
        }
    } else {
        match ClientMsg::parse(line) {
            Ok(m) => back(m.owning(), jclient),
            Err(_) => json!([]),
        }
    }
}
fn load_str<T: DeserializeOwned + Serialize + PartialEq + AsRef<[u8]>>(via: &str, b: &[u8]) -> Value {
    let s = std::str::from_utf8(b);
    let r: Option<T> = match (via, s) {
        ("bytes", _) | (_, Err(_)) => T::deserialize(BytesDeserializer::<VErr>::new(b)).ok(),
        ("str", Ok(s)) => T::deserialize(StrDeserializer::<VErr>::new(s)).ok(),
        ("string", Ok(s)) => T::deserialize(StringDeserializer::<VErr>::new(s.to_string())).ok(),
        ("json", Ok(s)) => serde_json::from_str(&Value::String(s.into()).to_string()).ok(),
        (_, Ok(s)) => serde_json::from_value(Value::String(s.into())).ok(),
    };
    match r {
        None => no(),
        Some(v) => json!({"ok": true, "v": jb(v.as_ref()), "rt": s.is_err() || again(&v)}),
    }
}
fn run_str(c: &Value) -> Value {
    let (v, b) = (c["via"].as_str().unwrap(), bj(&c["b"]));
    match c["t"].as_str().unwrap() {
        "Bytes" => load_str::<Bytes<'static>>(v, &b),
        "NoNul" => load_str::<NoNul<'static>>(v, &b),
        "Line" => load_str::<Line<'static>>(v, &b),
        "Word" => load_str::<Word<'static>>(v, &b),
        "Arg" => load_str::<Arg<'static>>(v, &b),
        "Key" => load_str::<Key<'static>>(v, &b),
        "Target" => load_str::<Target<'static>>(v, &b),
        "Nick" => load_str::<Nick<'static>>(v, &b),
        "User" => load_str::<User<'static>>(v, &b),
        _ => load_str::<Cmd<'static>>(v, &b),
    }
}
fn run_args(c: &Value) -> Value {
    let bs: Vec<Vec<u8>> = c["args"].as_array().unwrap().iter().map(bj).collect();
    let de = SeqDeserializer::<_, VErr>::new(bs.iter().map(|b| b.as_slice()));
    match Args::deserialize(de) {
        Err(_) => no(),
        Ok(a) => {
            let (args, long) = jargs(&a);
            json!({"ok": true, "args": args, "long": long})
        }
    }
}
fn run_tags(c: &Value) -> Value {
    let ps: Vec<(Vec<u8>, Vec<u8>)> = c["tags"].as_array().unwrap().iter().map(|p| (bj(&p[0]), bj(&p[1]))).collect();
    let de = MapDeserializer::<_, VErr>::new(ps.iter().map(|(k, v)| (k.as_slice(), v.as_slice())));
    match Tags::deserialize(de) {
        Err(_) => no(),
        Ok(t) => {
            // The same pairs inserted one by one give equal tags, and every key is found.
            let mut u = Tags::new();
            for (k, v) in &ps {
                u.edit().insert_pair(Key::from_bytes(k.clone()).unwrap(), NoNul::from_bytes(v.clone()).unwrap());
            }
            let get = ps.iter().all(|(k, _)| t.get(Key::from_bytes(k.clone()).unwrap()).is_some());
            json!({"ok": true, "tags": jtags(&t), "srt": u == t, "get": get})
        }
    }
}
fn run_num(c: &Value) -> Value {
    let t = c["v"].to_string();
    match serde_json::from_str::<Numeric>(&t) {
        Err(_) => no(),
        Ok(n) => json!({"ok": true, "s": jb(n.as_bytes()), "rt": again(&n)}),
    }
}
fn run_junk(c: &Value) -> Value {
    let t = txt(&c["text"]);
    let one = |r: Option<Value>| r.unwrap_or_else(no);
    match c["ty"].as_str().unwrap() {
        "server" => one(serde_json::from_str::<ServerMsg>(&t).ok().map(|m| jserver(&m))),
        "client" => one(serde_json::from_str::<ClientMsg>(&t).ok().map(|m| jclient(&m))),
        _ => one(serde_json::from_str::<Numeric>(&t).ok().map(|n| {
            json!({"ok": true, "tags": [], "src": [], "kind": jb(n.as_bytes()), "args": [], "long": false})
        })),
    }
}
fn opts_json(c: &Value) -> Value {
    let mut o = serde_json::Map::new();
    let list = |v: &Value| Value::Array(v.as_array().unwrap().iter().map(|x| Value::String(txt(x))).collect());
    let mut put = |k: &str, f: &str, g: &dyn Fn(&Value) -> Value| {
        if let Some(v) = c[f].get(0) {
            o.insert(k.into(), g(v));
        }
    };
    let s = |v: &Value| Value::String(txt(v));
    put("pass", "pass", &s);
    put("nicks", "nicks", &list);
    put("username", "user", &s);
    put("realname", "real", &s);
    put("caps", "caps", &list);
    put("allow_sasl_fail", "allow", &|v| v.clone());
    put("sasl", "sasl", &|v| {
        Value::Array(
            v.as_array()
                .unwrap()
                .iter()
                .map(|a| {
                    if a["k"] == "ext" {
                        json!({"External": txt(&a["authzid"])})
                    } else {
                        let mut p = json!({"authcid": txt(&a["authcid"]), "passwd": txt(&a["passwd"])});
                        if let Some(z) = a["az"].get(0) {
                            p["authzid"] = s(z);
                        }
                        if a["deny"] == true {
                            p["deny_methods"] = json!(["Plain"]);
                        }
                        json!({"Password": p})
                    }
                })
                .collect(),
        )
    });
    Value::Object(o)
}
fn run_opts(c: &Value) -> Value {
    let v = opts_json(c);
    let Ok(o) = serde_json::from_str::<Options<Clear>>(&v.to_string()) else {
        // the other way of loading must agree
        return json!({"ok": serde_json::from_value::<Options<Clear>>(v).is_ok(), "pass": ["?"]});
    };
    let mut hidden = o.pass.as_ref().map(|p| p.is_secret()).unwrap_or(true);
    let mut sasl = Vec::new();
    for a in &o.sasl {
        if let AnySasl::Password(p) = a {
            hidden &= p.passwd.is_secret();
        }
        for mut l in a.logic() {
            let mut buf = SecretBuf::with_capacity(8);
            let ok = l.reply(b"", &mut buf).is_ok();
            sasl.push(json!([l.name().to_utf8().unwrap(), if ok { jb(buf.into_bytes().as_bytes()) } else { json!(["?"]) }]));
        }
    }
    json!({"ok": true, "pass": opt(o.pass.as_ref().map(|p| jb(p.as_bytes()))), "nicks": o.nicks.iter().map(|n| jb(n.as_bytes())).collect::<Vec<_>>(),
        "user": opt(o.username.as_ref().map(|p| jb(p.as_bytes()))), "real": opt(o.realname.as_ref().map(|p| jb(p.as_bytes()))),
        "caps": o.caps.iter().map(|n| jb(n.as_bytes())).collect::<Vec<_>>(), "allow": o.allow_sasl_fail, "sasl": sasl, "hidden": hidden})
}
fn suffix(r: &mut Rng) -> SuffixType {
    match r.below(9) {
        0 => SuffixType::Letter(r.chance(1, 2)),
        1 => SuffixType::Base8,
        2 => SuffixType::Base10,
        3 => SuffixType::Base16(r.chance(1, 2)),
        4 => SuffixType::NonZeroBase8,
        5 => SuffixType::NonZeroBase10,
        6 => SuffixType::NonZeroBase16(r.chance(1, 2)),
        7 => SuffixType::Choice((0..r.below(4)).map(|k| Nick::from_bytes(format!("n{k}")).unwrap()).collect()),
        _ => SuffixType::Char(*r.pick(&['_', '\u{e9}', '\u{2603}', 'q'])),
    }
}
/// Settings other than options: [every way of loading gives an equal value, the parts are the same].
fn run_cfg(c: &Value) -> Value {
    let mut r = Rng::new(c["s"].as_u64().unwrap());
    match c["k"].as_str().unwrap() {
        "addr" => {
            let host = *r.pick(&["irc.example.org", "", "::1", "[2001:db8::1]", "h\u{e9}"]);
            let a = ServerAddr { address: Word::from_bytes(host).unwrap(), tls: r.chance(1, 2), port: if r.chance(1, 2) { Some(*r.pick(&[0u16, 6667, 6697, 65535])) } else { None } };
            let t = serde_json::to_string(&a).unwrap();
            let b: Option<ServerAddr<'static>> = serde_json::from_str(&t).ok();
            json!([again(&a), b.map(|b| b.address == a.address && b.tls == a.tls && b.port == a.port).unwrap_or(false)])
        }
        "nicks" => {
            let sfx = Suffix {
                strategy: match r.below(3) {
                    0 => SuffixStrategy::Seq,
                    1 => SuffixStrategy::Rng(None),
                    _ => SuffixStrategy::Rng(Some(r.next() as u32)),
                },
                suffixes: (0..r.below(4)).map(|_| suffix(&mut r)).collect::<Vec<_>>().into(),
            };
            let n = Nicks { nicks: (0..r.below(4)).map(|k| Nick::from_bytes(format!("n{k}")).unwrap()).collect(), skip_first: r.chance(1, 2), gen: std::sync::Arc::new(sfx.clone()) };
            let t = serde_json::to_string(&n).unwrap();
            let b: Option<Nicks<Suffix>> = serde_json::from_str(&t).ok();
            json!([again(&sfx), b.map(|b| b.nicks == n.nicks && b.skip_first == n.skip_first && *b.gen == sfx).unwrap_or(false)])
        }
        _ => {
            let line: &[u8] = r.pick(&[&b"n!u@h"[..], b"n@h", b"irc.example.org", b"n\t!~u@h!@", "\u{e9}!u@\u{2603}".as_bytes()]);
            let s = Source::parse(Word::from_bytes(line.to_vec()).unwrap()).unwrap();
            let sh = SharedSource::new(s.clone());
            json!([again(&s), serde_json::to_value(&sh).ok().and_then(|v| serde_json::from_value::<SharedSource>(v).ok()) == Some(sh)])
        }
    }
}

const PARTS: &[&str] = &["a", "", ":", " ", "x y", ":x", "a\nb", "\0", "\r", "CMD", "cmd", "001", "a=b", "a;b", "+x/y", "n!u", "n@h", ",", "%", "\u{e9}", "\u{2603}z", "true", "@", "\t", "longer word here", "0", "#chan", "*"];
fn part(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 5) {
        return r.bytes(b"aZ09 :;=,!@%\n\r\0\t\\\"", 6);
    }
    r.pick(PARTS).as_bytes().to_vec()
}
fn good(r: &mut Rng, t: &str) -> Vec<u8> {
    for _ in 0..30 {
        let b = part(r);
        let ok = match t {
            "Key" => Key::from_bytes(b.clone()).is_ok(),
            "NoNul" => NoNul::from_bytes(b.clone()).is_ok(),
            "Nick" => Nick::from_bytes(b.clone()).is_ok(),
            "User" => User::from_bytes(b.clone()).is_ok(),
            "Word" => Word::from_bytes(b.clone()).is_ok(),
            "Arg" => Arg::from_bytes(b.clone()).is_ok(),
            _ => Line::from_bytes(b.clone()).is_ok(),
        };
        if ok {
            return b;
        }
    }
    b"x".to_vec()
}
/// Mostly good parts, sometimes any.
fn some(r: &mut Rng, t: &str, bad: usize) -> Value {
    jb(&if r.chance(bad, 12) { part(r) } else { good(r, t) })
}
fn gen_doc(r: &mut Rng) -> Value {
    let bad = *r.pick(&[0, 0, 1, 4]);
    let server = r.chance(2, 3);
    let tags: Vec<Value> = (0..*r.pick(&[0, 0, 1, 2, 3, 5])).map(|_| json!([some(r, "Key", bad), some(r, "NoNul", bad)])).collect();
    let src = match r.below(4) {
        0 => json!([]),
        1 => json!([some(r, "Nick", bad)]),
        2 => json!([some(r, "Nick", bad), [], some(r, "Word", bad)]),
        _ => json!([some(r, "Nick", bad), [some(r, "User", bad)], some(r, "Word", bad)]),
    };
    let kind = if server && r.chance(1, 2) {
        json!(["n", *r.pick(&[0, 1, 5, 10, 99, 100, 433, 999, 1000, 5000, 65535, 65536, 70000]) as i64 - if r.chance(1, 30) { 1 } else { 0 }])
    } else if r.chance(bad, 12) {
        json!(["s", jb(&part(r))])
    } else {
        json!(["s", jb(r.pick(&[&b"PING"[..], b"A", b"PRIVMSG"]))])
    };
    let n = *r.pick(&[0, 1, 2, 3, 5, 15, 17]);
    let mut args: Vec<Value> = (0..n).map(|_| some(r, "Arg", bad)).collect();
    if r.chance(1, 2) {
        args.push(some(r, "Line", bad));
    }
    json!({"op": "doc", "side": if server { "server" } else { "client" }, "tags": tags, "src": if server { src } else { json!([]) }, "kind": kind, "args": args})
}
fn b64(b: &[u8]) -> Vec<u8> {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = Vec::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            o.push(if k <= c.len() { A[(v >> (18 - 6 * k)) as usize & 63] } else { b'=' });
        }
    }
    o
}
fn secret(r: &mut Rng, bad: usize) -> Value {
    let raw = if r.chance(1, 4) { (0..r.below(40)).map(|_| 1 + r.below(255) as u8).filter(|b| *b != 10 && *b != 13).collect() } else if r.chance(bad, 6) { part(r) } else { good(r, "Line") };
    let mut e = b64(&raw);
    if r.chance(bad, 8) && !e.is_empty() {
        let k = r.below(e.len());
        match r.below(3) {
            0 => e[k] = *r.pick(b"!- \n.=_"),
            1 => {
                e.remove(k);
            }
            _ => e.push(b'A'),
        }
    }
    jb(&e)
}
fn gen_opts(r: &mut Rng) -> Value {
    let bad = *r.pick(&[0, 0, 0, 1, 3]);
    let mut f = |r: &mut Rng, g: &mut dyn FnMut(&mut Rng) -> Value| if r.chance(1, 2) { let v = g(r); json!([v]) } else { json!([]) };
    let pass = f(r, &mut |r| secret(r, bad));
    let nicks = f(r, &mut |r| Value::Array((0..r.below(4)).map(|_| some(r, "Nick", bad)).collect()));
    let user = f(r, &mut |r| some(r, "User", bad));
    let real = f(r, &mut |r| some(r, "Line", bad));
    let caps = f(r, &mut |r| Value::Array((0..r.below(4)).map(|_| some(r, "Key", bad)).collect()));
    let allow = f(r, &mut |r| json!(r.chance(1, 2)));
    let sasl = f(r, &mut |r| {
        Value::Array(
            (0..r.below(4))
                .map(|_| {
                    if r.chance(1, 3) {
                        json!({"k": "ext", "authzid": some(r, "NoNul", bad)})
                    } else {
                        json!({"k": "pw", "az": if r.chance(1, 2) { json!([some(r, "NoNul", bad)]) } else { json!([]) },
                            "authcid": some(r, "NoNul", bad), "passwd": secret(r, bad), "deny": r.chance(1, 4)})
                    }
                })
                .collect(),
        )
    });
    json!({"op": "opts", "pass": pass, "nicks": nicks, "user": user, "real": real, "caps": caps, "allow": allow, "sasl": sasl})
}
const JUNK: &[&str] = &["null", "true", "false", "0", "7", "-1", "999", "1000", "200.5", "1e2", "[]", "{}", "\"\"", "\"JOIN\"", "\"001\"", "[48,48,49]", "[200,200,200]", "[49,49,255]", "[1,2,3]", "[\"a\"]", "[\"a\",\" b\"]", "[\"\",\"\"]", "[[97]]", "{\"a\":\"b\"}", "{\"a=\":\"b\"}", "{\"nick\":\"n\",\"userhost\":null}", "{\"nick\":\"n\"}", "{\"nick\":null,\"userhost\":null}", "{\"nick\":\"n\",\"userhost\":{\"host\":\"h\"}}", "{\"nick\":\"n n\",\"userhost\":{\"user\":\"\",\"host\":\"h\"}}", "[255,10]", "{\"Numeric\":[200,201,202]}", "{\"Cmd\":\"a b\"}", "\"a\\u0000\"", "\"a\\nb\""];
fn gen_junk(r: &mut Rng) -> Value {
    let ty = *r.pick(&["server", "server", "client", "num"]);
    let normal = [("tags", "{}"), ("source", "null"), ("kind", "\"JOIN\""), ("cmd", "\"JOIN\""), ("args", "[\"#a\"]")];
    let text = if ty == "num" {
        (*r.pick(JUNK)).to_string()
    } else {
        let mut fs = Vec::new();
        for (k, v) in normal {
            if k == if ty == "server" { "cmd" } else { "kind" } || r.chance(1, 15) {
                continue;
            }
            fs.push(format!("\"{k}\":{}", if r.chance(1, 3) { *r.pick(JUNK) } else { v }));
        }
        format!("{{{}}}", fs.join(","))
    };
    json!({"op": "junk", "ty": ty, "text": jb(text.as_bytes())})
}
fn gen_load(r: &mut Rng) -> Value {
    let n = r.below(4);
    let parts: Vec<Value> = (0..n)
        .map(|_| {
            let mut p = part(r);
            if r.chance(1, 4) {
                p.extend(std::iter::repeat(b'x').take(r.below(100)));
            }
            if r.chance(1, 12) {
                p.push(*r.pick(&[0, 255, b' ', b':']));
            }
            jb(&p)
        })
        .collect();
    let fail = if n > 0 && r.chance(1, 6) { json!([r.below(n)]) } else { json!([]) };
    json!({"op": "load", "t": *r.pick(&["NoNul", "Line", "Word", "Arg", "Nick", "Cmd"]), "by": *r.pick(&["parts", "parts", "parts", "clear", "unit"]),
        "parts": parts, "hint": *r.pick(&[0usize, 1, 7, 32, 300]), "fail": fail, "how": r.below(3)})
}
fn gen(r: &mut Rng) -> Value {
    match r.below(13) {
        12 => gen_load(r),
        0..=2 => gen_doc(r),
        3 | 4 => {
            // a parsed line of text
            let d = gen_doc(r);
            let mut l = Vec::new();
            if r.chance(1, 2) {
                l.extend_from_slice(b"@a=b;+c/d;e=x\\:y ");
            }
            if r.chance(1, 2) {
                l.extend_from_slice(b":n!u@h ");
            }
            l.extend_from_slice(r.pick(&[&b"PRIVMSG"[..], b"001", b"433", b"a", b"000", b"999"]));
            for a in d["args"].as_array().unwrap() {
                l.push(b' ');
                l.extend_from_slice(&bj(a));
            }
            l.retain(|b| ![0, 10, 13].contains(b));
            json!({"op": "line", "side": d["side"], "in": jb(&l)})
        }
        5 | 6 => {
            let t = *r.pick(&["Bytes", "NoNul", "Line", "Word", "Arg", "Key", "Target", "Nick", "User", "Cmd"]);
            let mut b = part(r);
            if r.chance(1, 6) {
                b.push(*r.pick(&[255, 128, 195]));
            }
            json!({"op": "sstr", "t": t, "b": jb(&b), "via": *r.pick(&["bytes", "str", "string", "json", "value"])})
        }
        7 => {
            let bad = *r.pick(&[0, 1, 3]);
            let n = *r.pick(&[0, 1, 2, 3, 6, 16]);
            let mut a: Vec<Value> = (0..n).map(|_| some(r, "Arg", bad)).collect();
            if r.chance(1, 2) {
                a.push(some(r, "Line", bad));
            }
            if r.chance(1, 6) {
                a.push(jb(&[255, 97]));
            }
            json!({"op": "sargs", "args": a})
        }
        8 => {
            let bad = *r.pick(&[0, 0, 1, 3]);
            let n = *r.pick(&[0, 1, 2, 3, 6]);
            json!({"op": "stags", "tags": (0..n).map(|_| json!([some(r, "Key", bad), if r.chance(1, 8) { jb(&[255, 59]) } else { some(r, "NoNul", bad) }])).collect::<Vec<_>>()})
        }
        9 => {
            if r.chance(1, 3) {
                json!({"op": "snum", "v": r.below(1100)})
            } else {
                gen_junk(r)
            }
        }
        10 => gen_opts(r),
        _ => json!({"op": "cfg", "k": *r.pick(&["addr", "nicks", "src"]), "s": r.next() >> 40}),
    }
}
/// A loader that appends its parts in some way, or fails before one of them.
struct Parts {
    parts: Vec<Vec<u8>>,
    hint: usize,
    fail: Option<usize>,
    how: usize,
}
impl LoadSecret for Parts {
    fn size_hint(&self) -> usize {
        self.hint
    }
    fn load_secret(self, data: &mut SecretBuf) -> std::io::Result<()> {
        for (i, p) in self.parts.iter().enumerate() {
            if self.fail == Some(i) {
                return Err(std::io::Error::new(std::io::ErrorKind::PermissionDenied, "locked"));
            }
            match (self.how + i) % 3 {
                0 => data.push_slice(p),
                1 => p.iter().for_each(|b| data.push(*b, 1)),
                _ => {
                    data.reserve(p.len());
                    let mut n = 0;
                    while n < p.len() {
                        n += data.read_from(1 + (p.len() - n) / 2, &mut &p[n..]).unwrap();
                    }
                }
            }
        }
        Ok(())
    }
}
fn run_load(c: &Value) -> Value {
    fn one<T>(c: &Value) -> Value
    where
        T: TryFrom<Bytes<'static>> + Loaded,
        T::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
    {
        fn show<T: Loaded, L>(r: std::io::Result<Secret<T, L>>) -> Value {
            match r {
                Ok(s) => {
                    let t = Secret::into_inner(s);
                    json!({"ok": true, "v": jb(t.text()), "hid": t.hidden(), "err": ""})
                }
                Err(e) => json!({"ok": false, "v": [], "hid": true, "err": format!("{:?}", e.kind())}),
            }
        }
        let parts: Vec<Vec<u8>> = c["parts"].as_array().unwrap().iter().map(bj).collect();
        match c["by"].as_str().unwrap() {
            "unit" => show(Secret::<T, ()>::load(())),
            "clear" => show(Secret::<T, Clear>::load(Clear(parts.concat().into()))),
            _ => show(Secret::<T, Parts>::load(Parts {
                parts,
                hint: c["hint"].as_u64().unwrap() as usize,
                fail: c["fail"].as_array().unwrap().first().map(|f| f.as_u64().unwrap() as usize),
                how: c["how"].as_u64().unwrap() as usize,
            })),
        }
    }
    match c["t"].as_str().unwrap() {
        "NoNul" => one::<NoNul<'static>>(c),
        "Line" => one::<Line<'static>>(c),
        "Word" => one::<Word<'static>>(c),
        "Arg" => one::<Arg<'static>>(c),
        "Nick" => one::<Nick<'static>>(c),
        _ => one::<Cmd<'static>>(c),
    }
}
trait Loaded {
    fn text(&self) -> &[u8];
    fn hidden(&self) -> bool;
}
macro_rules! loaded {
    ($($T:ident)*) => {$(impl Loaded for $T<'static> {
        fn text(&self) -> &[u8] {
            self.as_ref()
        }
        fn hidden(&self) -> bool {
            self.is_secret()
        }
    })*};
}
loaded!(NoNul Line Word Arg Nick Cmd);
fn run(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "doc" => run_doc(c),
        "line" => run_line(c),
        "sstr" => run_str(c),
        "sargs" => run_args(c),
        "stags" => run_tags(c),
        "snum" => run_num(c),
        "junk" => run_junk(c),
        "opts" => run_opts(c),
        "load" => run_load(c),
        _ => run_cfg(c),
    }
}
pub fn record(ctx: &mut Ctx) {
    if let Some(cases) = ctx.input.take() {
        for mut c in cases {
            if let Some(o) = c.as_object_mut() {
                o.remove("st");
                o.remove("out");
            }
            let d = c.clone();
            ctx.case(c, || run(&d));
        }
        return;
    }
    for n in 0..1001 {
        let c = json!({"op": "snum", "v": n});
        let d = c.clone();
        ctx.case(c, || run(&d));
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n {
        let c = gen(&mut r);
        let d = c.clone();
        ctx.case(c, || run(&d));
    }
}
