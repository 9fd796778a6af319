//! Typed views of messages, names, numerics, CTCP messages.
use crate::core::*;
use crate::msg::*;
use serde_json::{json, Map, Value};
use std::hash::{Hash, Hasher};
use vinezombie::ircmsg::*;
use vinezombie::names::{cap, cmd, isupport, Name};
use vinezombie::string::*;

fn targeted<T: Clone>(t: Result<TargetedMsg<'_, T>, vinezombie::error::ParseError>, show: impl Fn(&T) -> Vec<u8>) -> Value {
    let Ok(t) = t else { return json!({"ok": false}) };
    let rest = |u: &TargetedMsg<'_, i32>| u.tags == t.tags && u.source == t.source && u.target == t.target;
    let m = t.clone().map(|_| 7);
    let e: Result<TargetedMsg<'_, i32>, i32> = t.clone().map_result(|_| Err(3));
    let k: Result<TargetedMsg<'_, i32>, i32> = t.clone().map_result(|_| Ok(8));
    let it: Vec<_> = t.clone().map_iter(|_| [1, 2, 3]).collect();
    let map = rest(&m)
        && m.value == 7
        && e.err() == Some(3)
        && k.map(|k| rest(&k) && k.value == 8).unwrap_or(false)
        && it.iter().all(rest)
        && it.iter().map(|x| x.value).collect::<Vec<_>>() == [1, 2, 3];
    json!({"ok": true, "tags": jtags(&t.tags), "src": t.source.as_deref().map(jsrc).unwrap_or(json!([])), "target": jb(t.target.as_bytes()),
        "value": jb(&show(&t.value)), "map": map})
}
macro_rules! views {
    ($m:expr, $($n:ident)+) => {{
        let mut o = Map::new();
        $(o.insert(stringify!($n).into(), targeted($m.parse_as(cmd::$n), |l| l.as_bytes().to_vec()));)+
        o
    }};
}
macro_rules! same {
    ($k:expr, $($n:ident)+) => {{
        let mut o = Map::new();
        $(o.insert(stringify!($n).into(), json!(*$k == cmd::$n && cmd::$n == *$k));)+
        o
    }};
}
fn view(c: &Value) -> Value {
    let line = bj(&c["in"]);
    if c["side"] == "server" {
        let Ok(m) = ServerMsg::parse(line) else { return json!([]) };
        let mut v = views!(m, NOTICE PART PRIVMSG TOPIC QUIT WALLOPS);
        v.insert("JOIN".into(), targeted(m.parse_as(cmd::JOIN), |_| vec![]));
        json!([{"v": v, "is": same!(&m.kind, JOIN NOTICE PART PRIVMSG TOPIC QUIT WALLOPS ERROR FAIL PING)}])
    } else {
        let Ok(m) = ClientMsg::parse(line) else { return json!([]) };
        let v = views!(m, NOTICE PART PRIVMSG TOPIC QUIT WALLOPS);
        json!([{"v": v, "is": same!(&m.cmd, JOIN NOTICE PART PRIVMSG TOPIC QUIT WALLOPS USER PASS PING)}])
    }
}
fn err(e: Option<bool>) -> &'static str {
    match e {
        Some(true) => "y",
        Some(false) => "n",
        None => "?",
    }
}
fn h(x: impl Hash) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn kind(b: &[u8]) -> ServerMsgKindRaw<'static> {
    match Numeric::from_bytes(b) {
        Some(n) => n.into(),
        None => Cmd::from_bytes(b.to_vec()).unwrap().into(),
    }
}
fn kinds(c: &Value) -> Value {
    let (a, b) = (bj(&c["a"]), bj(&c["b"]));
    let (k, l) = (kind(&a), kind(&b));
    let cmp = match k.cmp(&l) {
        std::cmp::Ordering::Less => "lt",
        std::cmp::Ordering::Equal => "eq",
        _ => "gt",
    };
    let bytes: &[u8] = &b;
    let s = std::str::from_utf8(bytes).unwrap();
    let borrowed: &[u8] = std::borrow::Borrow::borrow(&k);
    json!({"eq": k == l, "cmp": cmp, "text": jb(k.clone().owning().as_str().as_bytes()), "len": k.len(),
        "str": k == *s && k == s, "bytes": k == *bytes && k == bytes && k.as_arg() == bytes,
        "cmd": Cmd::from_bytes(bytes).map(|c| k == c).unwrap_or(false),
        "num": Numeric::from_bytes(bytes).map(|n| k == n).unwrap_or(false),
        "hash": h(&k) == h(a.as_slice()) && borrowed == a.as_slice(), "err": err(k.is_error())})
}
fn mkctcp(c: &Value) -> Value {
    let m = MaybeCtcp { cmd: Word::from_bytes(bj(&c["cmd"])).unwrap(), body: Line::from_bytes(bj(&c["body"])).unwrap() };
    let e: Result<MaybeCtcp<'_, u8>, i32> = m.clone().map_result(|_| Err(5));
    let k: Result<MaybeCtcp<'_, u8>, i32> = m.clone().map_result(|b| Ok(b.len() as u8));
    let it: Vec<_> = m.clone().map_iter(|b| [b.clone(), b]).collect();
    let map = m.clone().map(|b| b.len()) == MaybeCtcp { cmd: m.cmd.clone(), body: m.body.len() }
        && e.err() == Some(5)
        && k == Ok(MaybeCtcp { cmd: m.cmd.clone(), body: m.body.len() as u8 })
        && it == [m.clone(), m.clone()];
    let (len, empty, is) = (m.len(), m.is_empty(), m.is_ctcp());
    let line: Line<'static> = m.clone().into_line();
    let other: Line<'static> = m.into();
    let p = MaybeCtcp::parse(line.clone());
    let q: MaybeCtcp<'_, Line<'_>> = line.clone().into();
    json!({"line": jb(line.as_bytes()), "len": len, "empty": empty, "is": is, "map": map && other == line && p == q,
        "cmd": jb(p.cmd.as_bytes()), "body": jb(p.body.as_bytes())})
}
macro_rules! name_table {
    ($out:ident, $cls:literal, $m:ident, $f:ident, $t:ident, $($n:ident)+) => {
        $({
            let raw: $t<'static> = $m::$n.into();
            let eq = *$m::$n.$f() == raw && raw == $m::$n && $m::$n == raw && h($m::$n) == h(&raw);
            $out.push(($cls, stringify!($n), raw.as_bytes().to_vec(), eq));
        })+
    };
}
macro_rules! as_client {
    ($out:ident, $($n:ident)+) => {
        $({
            let m = ClientMsg::new(cmd::$n);
            let mut w = Vec::new();
            m.write_to(&mut w).unwrap();
            let r: &Cmd<'static> = Name::<vinezombie::names::ClientMsgKind>::as_raw(&cmd::$n);
            $out.push(("client", stringify!($n), w.clone(), m.cmd == cmd::$n && m.args.is_empty() && r.as_bytes() == w.as_slice() && cmd::$n.to_string().as_bytes() == w.as_slice()));
        })+
    };
}
macro_rules! as_server {
    ($out:ident, $($n:ident)+) => {
        $({
            let k: ServerMsgKindRaw<'static> = cmd::$n.into();
            let m = ServerMsg::new(cmd::$n, SharedSource::new(Source::new_server(Nick::from_str("srv"))));
            $out.push(("server", stringify!($n), k.as_str().as_bytes().to_vec(), m.kind == k && m.kind == cmd::$n && m.args.is_empty() && *cmd::$n.as_kind() == k && cmd::$n.to_string() == k.as_str()));
        })+
    };
}
fn names() -> Vec<(&'static str, &'static str, Vec<u8>, bool)> {
    let mut out = Vec::new();
    name_table!(out, "cmd", cmd, as_cmd, Cmd, ACCEPT ADMIN CHALLENGE CHATHISTORY HELP INFO KILL KNOCK LINKS LIST LUSERS MONITOR MAP MOTD NAMES OPER PASS STATS TIME
        USER USERHOST VERSION WEBIRC WHO WHOIS WHOWAS ACCOUNT CHGHOST ERROR FAIL NOTE WARN AUTHENTICATE AWAY BATCH CAP INVITE JOIN KICK MODE NICK NOTICE PART
        PING PONG PRIVMSG QUIT REGISTER SETNAME TAGMSG TOPIC VERIFY WALLOPS);
    name_table!(out, "cap", cap, as_key, Key, ACCOUNT_NOTIFY ACCOUNT_TAG BATCH CHGHOST ECHO_MESSAGE EXTENDED_JOIN EXTENDED_MONITOR INVITE_NOTIFY LABELED_RESPONSE
        MESSAGE_TAGS MSGID MULTI_PREFIX SASL SERVER_TIME SETNAME STANDARD_REPLIES STS USERHOST_IN_NAMES);
    name_table!(out, "isupport", isupport, as_key, Key, AWAYLEN CHANNELLEN HOSTLEN KICKLEN MODES NICKLEN TOPICLEN USERLEN MONITOR SILENCE NETWORK CHANMODES PREFIX USERMODES ETRACE KNOCK SAFELIST UTF8ONLY WHOX BOT CALLERID EXCEPTS INVEX);
    as_client!(out, ACCEPT ADMIN CHALLENGE CHATHISTORY HELP INFO KILL KNOCK LINKS LIST LUSERS MONITOR MAP MOTD NAMES OPER PASS STATS TIME
        USER USERHOST VERSION WEBIRC WHO WHOIS WHOWAS AUTHENTICATE AWAY BATCH CAP INVITE JOIN KICK MODE NICK NOTICE PART
        PING PONG PRIVMSG QUIT REGISTER SETNAME TAGMSG TOPIC VERIFY WALLOPS);
    as_server!(out, ACCOUNT CHGHOST ERROR FAIL NOTE WARN AUTHENTICATE AWAY BATCH CAP INVITE JOIN KICK MODE NICK NOTICE PART
        PING PONG PRIVMSG QUIT REGISTER SETNAME TAGMSG TOPIC VERIFY WALLOPS);
    out
}
fn name(c: &Value) -> Value {
    let (_, _, raw, eq) = names().into_iter().find(|n| c["cls"] == n.0 && c["id"] == n.1).unwrap();
    json!({"raw": [jb(&raw)], "eq": eq})
}
/// A message made by the constructors, as written.
fn make(c: &Value) -> Value {
    let args: Vec<Vec<u8>> = c["args"].as_array().unwrap().iter().map(bj).collect();
    let mut wr = Vec::new();
    let words = |a: &[Vec<u8>]| a.iter().map(|w| Arg::from_bytes(w.clone()).unwrap()).collect::<Vec<_>>();
    let split = |a: &[Vec<u8>]| match a.split_last() {
        Some((l, w)) if c["last"] == true => (words(w), Some(Line::from_bytes(l.clone()).unwrap())),
        _ => (words(a), None),
    };
    if c["side"] == "server" {
        let src = SharedSource::new(Source::new_server(Nick::from_bytes(bj(&c["src"][0])).unwrap()));
        let m = match Numeric::from_bytes(&bj(&c["kind"])) {
            Some(n) => {
                let mut m = ServerMsg::new_num(n, src, Nick::from_bytes(args[0].clone()).unwrap());
                let (w, l) = split(&args[1..]);
                let mut e = m.args.edit();
                for w in w {
                    e.add_word(w);
                }
                if let Some(l) = l {
                    e.add(l);
                }
                std::mem::drop(e);
                m
            }
            None => {
                let (w, l) = split(&args);
                ServerMsg::new(cmd::PRIVMSG, src).with_args(w, l)
            }
        };
        m.write_to(&mut wr).unwrap();
    } else {
        let (w, l) = split(&args);
        ClientMsg::new(cmd::PRIVMSG).with_args(w, l).write_to(&mut wr).unwrap();
    }
    json!({"wr": jb(&wr)})
}
fn run(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "view" => view(c),
        "kinds" => kinds(c),
        "mkctcp" => mkctcp(c),
        "name" => name(c),
        "num" => json!(err(Numeric::from_int(us(&c["v"]) as u16).unwrap().is_error())),
        _ => make(c),
    }
}
const KINDS: &[&[u8]] = &[b"PRIVMSG", b"NOTICE", b"PART", b"QUIT", b"JOIN", b"TOPIC", b"WALLOPS", b"FAIL", b"ERROR", b"FAI", b"FAILS", b"A", b"001", b"433", b"999", b"000", b"904", b"569", b"568", b"400", b"399", b"ERRO", b"WARN"];
fn gen(r: &mut Rng) -> Value {
    match r.below(10) {
        0..=4 => {
            let mut l = Vec::new();
            if r.chance(1, 2) {
                l.extend_from_slice(b"@a=b;c ");
            }
            if r.chance(2, 3) {
                l.extend_from_slice(r.pick(&[&b":n!u@h "[..], b":srv ", b":n@h "]));
            }
            l.extend_from_slice(r.pick(KINDS));
            for _ in 0..r.below(4) {
                l.push(b' ');
                l.extend_from_slice(r.pick(&[&b"#chan"[..], b"*", b"nick", b"a,b", b"\x01X\x01", b"\xff"]));
            }
            if r.chance(1, 2) {
                l.extend_from_slice(b" :");
                l.extend_from_slice(r.pick(&[&b""[..], b"word", b"two words", b":", b" lead", b"#chan", b"\x01ACTION x\x01"]));
            }
            json!({"op": "view", "side": *r.pick(&["server", "client"]), "in": jb(&l)})
        }
        5 | 6 => json!({"op": "kinds", "a": jb(r.pick(KINDS)), "b": jb(r.pick(KINDS))}),
        7 | 8 => {
            let cmd = r.bytes(b"ABZab\x01\xff9", 4);
            let body = r.bytes(b"AB ab\x01\xff:", 9);
            json!({"op": "mkctcp", "cmd": jb(&cmd), "body": jb(&body)})
        }
        _ => {
            let server = r.chance(1, 2);
            let num = server && r.chance(1, 2);
            let mut args: Vec<Value> = (0..r.below(5)).map(|_| jb(r.pick(&[&b"#chan"[..], b"*", b"nick", b"a:b"]))).collect();
            if num {
                args.insert(0, jb(b"me"));
            }
            let last = r.chance(1, 2);
            if last {
                args.push(jb(r.pick(&[&b""[..], b"word", b"two words", b":", b" lead"])));
            }
            json!({"op": "make", "side": if server { "server" } else { "client" }, "kind": jb(if num { r.pick(&[&b"001"[..], b"433"]) } else { b"PRIVMSG" }),
                "src": if server { json!([jb(b"srv")]) } else { json!([]) }, "args": args, "last": last})
        }
    }
}
pub fn record(ctx: &mut Ctx) {
    let mut cases: Vec<Value> = Vec::new();
    if let Some(input) = ctx.input.take() {
        for mut c in input {
            if let Some(o) = c.as_object_mut() {
                o.remove("st");
                o.remove("out");
            }
            cases.push(c);
        }
    } else {
        cases.extend((0..1000).map(|n| json!({"op": "num", "v": n})));
        cases.extend(names().iter().map(|n| json!({"op": "name", "cls": n.0, "id": n.1})));
        for a in KINDS {
            cases.extend(KINDS.iter().map(|b| json!({"op": "kinds", "a": jb(a), "b": jb(b)})));
        }
        let mut r = Rng::new(ctx.seed);
        cases.extend((0..ctx.n).map(|_| gen(&mut r)));
    }
    for c in cases {
        let d = c.clone();
        ctx.case(c, || run(&d));
    }
}
