//! Registration, SASL, nick generation and capability requests.
use crate::core::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::io::{BufRead, Error, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::auth::*;
use vinezombie::client::channel::*;
use vinezombie::client::conn::*;
use vinezombie::client::nick::*;
use vinezombie::client::register::{self, *};
use vinezombie::client::state::*;
use vinezombie::client::*;
use vinezombie::ircmsg::*;
use vinezombie::string::base64::*;
use vinezombie::string::*;

// ------------------------------------------------------------------ line-at-a-time connection
#[derive(Default)]
pub struct FeedIo {
    pub input: VecDeque<u8>,
    pub output: Vec<u8>,
}
#[derive(Clone, Default)]
pub struct Feed(pub Arc<Mutex<FeedIo>>, Vec<u8>);
impl Feed {
    pub fn feed(&self, line: &[u8]) {
        let mut io = self.0.lock().unwrap();
        io.input.extend(line);
        io.input.extend(b"\r\n");
    }
    /// Lines written since the last call.
    pub fn take_lines(&self) -> Vec<Value> {
        let out = std::mem::take(&mut self.0.lock().unwrap().output);
        split_lines(&out)
    }
}
pub fn split_lines(out: &[u8]) -> Vec<Value> {
    let mut v = vec![];
    let mut rest = out;
    while !rest.is_empty() {
        match rest.windows(2).position(|w| w == b"\r\n") {
            Some(i) => {
                v.push(jb(&rest[..i]));
                rest = &rest[i + 2..];
            }
            None => {
                v.push(json!(["unterminated", jb(rest)]));
                break;
            }
        }
    }
    v
}
impl ReadTimeout for Feed {
    fn set_read_timeout(&mut self, _: Option<Duration>) -> std::io::Result<()> {
        Ok(())
    }
}
impl WriteTimeout for Feed {
    fn set_write_timeout(&mut self, _: Option<Duration>) -> std::io::Result<()> {
        Ok(())
    }
}
impl BufRead for Feed {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.1.is_empty() {
            let mut io = self.0.lock().unwrap();
            self.1.extend(io.input.drain(..));
        }
        if self.1.is_empty() {
            return Err(Error::new(ErrorKind::Other, "stall"));
        }
        Ok(&self.1)
    }
    fn consume(&mut self, n: usize) {
        self.1.drain(..n);
    }
}
impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl Write for Feed {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().output.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Connection for Feed {
    type BufRead = Self;
    type Write = Self;
    fn as_bufread(&mut self) -> &mut Self {
        self
    }
    fn as_write(&mut self) -> &mut Self {
        self
    }
}
pub fn new_client(feed: &Feed) -> Client<Feed, SyncChannels> {
    let mut client = Client::new(feed.clone(), SyncChannels);
    client.queue_mut().set_rate_limit(Duration::ZERO, 1);
    client
}
/// Runs until nothing more can be read; true if a handler reported or finished.
pub fn pump(client: &mut Client<Feed, SyncChannels>) -> bool {
    match client.run() {
        Ok(Some((a, b))) => !a.is_empty() || !b.is_empty(),
        Ok(None) => panic!("timeout reported without a limit"),
        Err(e) if e.to_string() == "stall" => false,
        Err(e) => panic!("run failed: {e}"),
    }
}

// ------------------------------------------------------------------ SASL
thread_local! {
    static CHAL: RefCell<Vec<Value>> = const { RefCell::new(Vec::new()) };
}
fn take_chal() -> Value {
    Value::Array(CHAL.with(|c| std::mem::take(&mut *c.borrow_mut())))
}
/// Records what challenges reach a mechanism.
struct Rec(Box<dyn SaslLogic>);
impl SaslLogic for Rec {
    fn name(&self) -> Arg<'static> {
        self.0.name()
    }
    fn reply(&mut self, input: &[u8], output: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        CHAL.with(|c| c.borrow_mut().push(jb(input)));
        self.0.reply(input, output)
    }
    fn size_hint(&self) -> usize {
        self.0.size_hint()
    }
}
struct Script(Vec<u8>, VecDeque<Option<Vec<u8>>>);
impl SaslLogic for Script {
    fn name(&self) -> Arg<'static> {
        Arg::from_bytes(self.0.clone()).unwrap()
    }
    fn reply(&mut self, _: &[u8], output: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        match self.1.pop_front() {
            Some(Some(b)) => {
                output.push_slice(&b);
                Ok(())
            }
            _ => Err("script says no".into()),
        }
    }
    fn size_hint(&self) -> usize {
        7
    }
}
#[derive(Clone)]
pub struct TestSasl(Value);
fn nonul(v: &Value) -> NoNul<'static> {
    NoNul::from_bytes(bj(v)).unwrap()
}
impl Sasl for TestSasl {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        let v = &self.0;
        let secret = || Secret::<NoNul<'static>, Clear>::new(nonul(&v["pw"]));
        let inner: Vec<Box<dyn SaslLogic>> = match v["kind"].as_str().unwrap() {
            "plain" if v["via"] == "password" => {
                let mut p = sasl::Password::new(nonul(&v["cid"]), secret());
                p.authzid = nonul(&v["zid"]);
                let any: AnySasl<Clear> = p.into();
                any.logic()
            }
            "plain" => {
                let mut p = sasl::Plain::new(nonul(&v["cid"]), secret());
                p.authzid = nonul(&v["zid"]);
                p.logic()
            }
            "denied" => {
                let mut p: sasl::Password<Clear> = sasl::Password::new(NoNul::from_str("u"), Secret::new(NoNul::from_str("p")));
                p.deny_methods.insert(sasl::PasswordMechanism::Plain);
                p.logic()
            }
            "external" => {
                let any: AnySasl<Clear> = sasl::External(nonul(&v["zid"])).into();
                any.logic()
            }
            _ => vec![Box::new(Script(
                bj(&v["name"]),
                v["script"].as_array().unwrap().iter().map(|s| s.as_array().unwrap().first().map(bj)).collect(),
            ))],
        };
        inner.into_iter().map(|l| Box::new(Rec(l)) as Box<dyn SaslLogic>).collect()
    }
}
fn sasl_of(v: &Value) -> Vec<TestSasl> {
    v.as_array().unwrap().iter().cloned().map(TestSasl).collect()
}

// ------------------------------------------------------------------ nicks
fn nick(v: &Value) -> Nick<'static> {
    Nick::from_bytes(bj(v)).unwrap()
}
fn nicks(v: &Value) -> Vec<Nick<'static>> {
    v.as_array().unwrap().iter().map(nick).collect()
}
fn suffix(s: &Value) -> SuffixType {
    let up = s["up"].as_bool().unwrap_or(false);
    match s["t"].as_str().unwrap() {
        "Letter" => SuffixType::Letter(up),
        "Base8" => SuffixType::Base8,
        "Base10" => SuffixType::Base10,
        "Base16" => SuffixType::Base16(up),
        "NonZeroBase8" => SuffixType::NonZeroBase8,
        "NonZeroBase10" => SuffixType::NonZeroBase10,
        "NonZeroBase16" => SuffixType::NonZeroBase16(up),
        "Choice" => SuffixType::Choice(nicks(&s["opts"])),
        _ => SuffixType::Char(String::from_utf8(bj(&s["c"])).unwrap().chars().next().unwrap()),
    }
}
struct Dyn(Box<dyn NickGen>);
impl NickGen for Dyn {
    fn next_nick(self: Box<Self>) -> (Nick<'static>, Option<Box<dyn NickGen>>) {
        self.0.next_nick()
    }
    fn peek(&self) -> Nick<'static> {
        self.0.peek()
    }
    fn handle_invalid(self: Box<Self>, nick: &Nick<'static>) -> Option<Box<dyn NickGen>> {
        self.0.handle_invalid(nick)
    }
}
fn gen_of(d: &Value) -> Box<dyn NickGen> {
    match d["t"].as_str().unwrap() {
        "nick" => Box::new(nick(&d["nick"])),
        "iter" => {
            let ns = nicks(&d["nicks"]);
            if ns.is_empty() || d["viaor"] == true {
                Box::new(from_iter_or(nick(&d["or"]), ns))
            } else {
                Box::new(from_iter(ns).unwrap())
            }
        }
        "cycle" => Box::new(from_iter(nicks(&d["nicks"]).into_iter().cycle()).unwrap()),
        "suffix" => suffix_of(d).transform(nick(&d["prefix"])),
        "chain" => {
            if d["using"] == true {
                // d.b is a suffix generator whose prefix is the first nick of d.a
                let a = Box::new(Dyn(gen_of(&d["a"])));
                a.chain_using(&suffix_of(&d["b"]))
            } else {
                Box::new(Dyn(gen_of(&d["a"]))).chain(gen_of(&d["b"]))
            }
        }
        "client" => default_client_nicks(nicks(&d["nicks"])),
        _ => default_bot_nicks(nicks(&d["nicks"])),
    }
}
fn suffix_of(d: &Value) -> Suffix {
    let strategy = match d["strategy"].as_str().unwrap() {
        "seq" => SuffixStrategy::Seq,
        _ => SuffixStrategy::Rng(d["seed"].as_u64().map(|s| s as u32)),
    };
    Suffix { strategy, suffixes: d["sufs"].as_array().unwrap().iter().map(suffix).collect::<Vec<_>>().into() }
}
fn run_gen(d: &Value, ops: &[Value]) -> Vec<Value> {
    let mut g = Some(gen_of(d));
    let mut steps = vec![];
    for o in ops {
        let Some(cur) = g.take() else { break };
        if o["k"] == "next" {
            let peek = cur.peek();
            let (n, next) = cur.next_nick();
            steps.push(json!({"nick": jb(n.as_bytes()), "peek": jb(peek.as_bytes()), "more": next.is_some()}));
            g = next;
        } else {
            g = cur.handle_invalid(&nick(&o["nick"]));
            steps.push(json!({"nick": [], "peek": [], "more": g.is_some()}));
        }
    }
    steps
}
fn seeded(d: &Value) -> bool {
    match d["t"].as_str().unwrap() {
        "suffix" => d["strategy"] == "seq" || d["seed"].is_u64() || d["sufs"].as_array().unwrap().is_empty(),
        "chain" => seeded(&d["a"]) && seeded(&d["b"]),
        "client" => !d["nicks"].as_array().unwrap().is_empty(),
        "bot" => false,
        _ => true,
    }
}
fn run_nick(c: &Value) -> Value {
    let ops = c["ops"].as_array().unwrap();
    let steps = run_gen(&c["d"], ops);
    let again = !seeded(&c["d"]) || run_gen(&c["d"], ops) == steps;
    json!({"steps": steps, "again": again})
}

// ------------------------------------------------------------------ registration
struct Custom(Value);
fn key(v: &Value) -> Key<'static> {
    Key::from_bytes(bj(v)).unwrap()
}
fn keys(v: &Value) -> BTreeSet<Key<'static>> {
    v.as_array().unwrap().iter().map(key).collect()
}
fn custom() -> Register<Custom> {
    register_as_custom::<Custom>(
        |o| o.0["pass"].as_array().unwrap().first().map(|p| Line::from_bytes(bj(p)).unwrap()),
        |o| default_bot_username(o.0["user"].as_array().unwrap().first().map(|u| User::from_bytes(bj(u)).unwrap()).as_ref()),
        |o| default_bot_realname(o.0["real"].as_array().unwrap().first().map(|u| Line::from_bytes(bj(u)).unwrap()).as_ref()),
        |o| gen_of(&o.0["gen"]),
        |o| default_caps(keys(&o.0["caps"]), o.0["common"].as_bool().unwrap(), o.0["require"].as_bool().unwrap()),
        |o| {
            let q: SaslQueue = sasl_of(&o.0["sasl"]).iter().collect();
            (q, !o.0["allow"].as_bool().unwrap())
        },
    )
}
fn options(c: &Value) -> Options<Clear, TestSasl> {
    let mut o: Options<Clear, TestSasl> = Options::new();
    if let Some(p) = c["pass"].as_array().unwrap().first() {
        o.set_pass(String::from_utf8(bj(p)).unwrap()).unwrap();
    }
    o.nicks = nicks(&c["nicks"]);
    o.username = c["user"].as_array().unwrap().first().map(|u| User::from_bytes(bj(u)).unwrap());
    o.realname = c["real"].as_array().unwrap().first().map(|u| Line::from_bytes(bj(u)).unwrap());
    for s in sasl_of(&c["sasl"]) {
        o.add_sasl(s);
    }
    o.allow_sasl_fail = c["allow"].as_bool().unwrap();
    o.caps = keys(&c["caps"]);
    o
}
pub fn src_json(s: &Source<'_>) -> Value {
    match &s.userhost {
        None => json!([jb(s.nick.as_bytes())]),
        Some(uh) => json!([jb(s.nick.as_bytes()), opt(uh.user.as_ref().map(|u| jb(u.as_bytes()))), jb(uh.host.as_bytes())]),
    }
}
fn err_json(e: &register::HandlerError) -> Value {
    use register::HandlerError::*;
    match e {
        NoAccess(l) => json!(["err", "NoAccess", jb(l.as_bytes())]),
        NoNicks => json!(["err", "NoNicks"]),
        NoLogin => json!(["err", "NoLogin"]),
        Redirect(s, p, i) => json!(["err", "Redirect", jb(s.as_bytes()), p, jb(i.as_bytes())]),
        ServerError(m) => {
            let mut v = vec![];
            ServerCodec::write_to(m, &mut v).unwrap();
            json!(["err", "ServerError", jb(&v)])
        }
        Broken(_) => json!(["err", "Broken"]),
        MissingCaps(c) => json!(["err", "MissingCaps", c.iter().map(|k| jb(k.as_bytes())).collect::<Vec<_>>()]),
    }
}
fn saved(st: &ClientState) -> Value {
    let Some(src) = st.get::<ClientSource>() else { return json!([]) };
    let caps = st.get::<Caps>().unwrap();
    let isup = st.get::<ISupport>().unwrap();
    json!({
        "src": src_json(src),
        "acct": opt(st.get::<Account>().unwrap().as_ref().map(|a| jb(a.as_bytes()))),
        "caps": caps.keys().map(|k| json!([jb(k.as_bytes()), jb(caps.get_union_raw(k).unwrap().1.as_bytes()), caps.get_extra_raw(k).unwrap()])).collect::<Vec<_>>(),
        "isup": isup.keys().map(|k| json!([jb(k.as_bytes()), jb(isup.get_union_raw(k).unwrap().1.as_bytes())])).collect::<Vec<_>>(),
        "server": st.get::<ServerSource>().map(src_json).unwrap_or_else(|| json!([])),
        "ver": opt(st.get::<ServerVersion>().map(|v| jb(v.as_bytes()))),
        "len": st.source_len().get(),
    })
}
pub fn run_reg(e: &Value) -> Value {
    let c = &e["c"];
    let feed = Feed::default();
    let mut client = new_client(&feed);
    let mut outs = vec![register_once(&mut client, &feed, c, &e["lines"])];
    // the same client, registering again after the session was lost
    for lines in e["again"].as_array().into_iter().flatten() {
        let feed = if outs.len() % 2 == 1 {
            client.reset();
            feed.clone()
        } else {
            let f = Feed::default();
            client.reset_with_conn(f.clone());
            f
        };
        let clean = saved(client.state()) == json!([]) && client.queue_mut().is_empty();
        let mut o = register_once(&mut client, &feed, c, lines);
        o["clean"] = json!(clean);
        outs.push(o);
    }
    let mut o = outs.remove(0);
    o["again"] = json!(outs);
    o
}
fn register_once(client: &mut Client<Feed, SyncChannels>, feed: &Feed, c: &Value, lines: &Value) -> Value {
    take_chal();
    let (_, (recv, _parker)) = match c["mode"].as_str().unwrap() {
        "bot" => client.add(&register_as_bot(), &options(c)).unwrap(),
        "client" => client.add(&register_as_client(), &options(c)).unwrap(),
        _ => client.add(&custom(), &Custom(c.clone())).unwrap(),
    };
    let mut recv = Some(recv);
    pump(client);
    let burst = feed.take_lines();
    let mut steps = vec![];
    for l in lines.as_array().unwrap() {
        tick();
        feed.feed(&bj(l));
        let done = pump(client);
        let r = if done {
            match recv.take().unwrap().recv_now() {
                Some(Ok(())) => json!(["ok"]),
                Some(Err(e)) => err_json(&e),
                None => json!(["nothing"]),
            }
        } else {
            json!([])
        };
        steps.push(json!({"out": feed.take_lines(), "chal": take_chal(), "r": r, "saved": saved(client.state())}));
        if done {
            break;
        }
    }
    json!({"burst": burst, "steps": steps})
}

// ------------------------------------------------------------------ SASL on its own
fn run_sasl(e: &Value) -> Value {
    take_chal();
    let q: SaslQueue = sasl_of(&e["sasl"]).iter().collect();
    let line = |m: &ClientMsg<'_>| {
        let mut v = vec![];
        ClientCodec::write_to(m, &mut v).unwrap();
        jb(&v)
    };
    let Some(mut h) = vinezombie::client::auth::Handler::from_queue(q) else {
        return json!({"first": [], "steps": []});
    };
    let first = json!([line(&h.auth_msg())]);
    let mut steps = vec![];
    for o in e["ops"].as_array().unwrap() {
        let mut out = vec![];
        let mut end = false;
        let r = if o["k"] == "retain" {
            let names: Vec<Vec<u8>> = o["names"].as_array().unwrap().iter().map(bj).collect();
            match h.retain(&|a: &Arg<'_>| names.iter().any(|n| n == a.as_bytes())) {
                None => json!(["none"]),
                Some(true) => json!(["cur"]),
                Some(false) => {
                    end = true;
                    json!(["all"])
                }
            }
        } else {
            let l = bj(&o["l"]);
            let m = ServerMsg::parse(Line::from_bytes(l).unwrap()).unwrap();
            match h.handle(&m, |m: ClientMsg<'static>| out.push(line(&m))) {
                Ok(false) => json!([]),
                Ok(true) => {
                    end = true;
                    json!(["done"])
                }
                Err(e) => {
                    use vinezombie::client::auth::HandlerError::*;
                    end = true;
                    match e {
                        Broken(a) => json!(["err", "Broken", jb(a.as_bytes())]),
                        Unsupported => json!(["err", "Unsupported"]),
                        Fail(l) => json!(["err", "Fail", jb(l.as_bytes())]),
                    }
                }
            }
        };
        steps.push(json!({"out": out, "chal": take_chal(), "auth": line(&h.auth_msg()), "r": r}));
        if end {
            break;
        }
    }
    json!({"first": first, "steps": steps})
}
fn run_b64(e: &Value) -> Value {
    let max = us(&e["max"]);
    if e["k"] == "enc" {
        let mut enc = ChunkEncoder::new(bj(&e["b"]), max, e["secret"].as_bool().unwrap());
        let mut chunks = vec![];
        let mut lens = vec![];
        let mut secret = true;
        let mut dec = ChunkDecoder::new(max);
        let mut back = vec![];
        loop {
            lens.push(enc.len());
            let Some(c) = enc.next() else { break };
            secret &= c.is_secret();
            chunks.push(jb(c.as_bytes()));
            if let Some(d) = dec.add(c.as_bytes()) {
                back.push(d.map(|b| jb(b.as_bytes())).unwrap_or_else(|_| json!([-1])));
            }
            if chunks.len() > 100000 {
                break;
            }
        }
        secret &= !chunks.is_empty();
        json!({"chunks": chunks, "lens": lens, "secret": secret, "back": back})
    } else {
        let mut dec = ChunkDecoder::new(max);
        let outs: Vec<Value> = e["chunks"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| match dec.add(bj(c)) {
                None => json!(["more", []]),
                Some(r) => json!(["done", opt(r.ok().map(|b| jb(b.as_bytes())))]),
            })
            .collect();
        json!(outs)
    }
}
fn run_capreq(e: &Value) -> Value {
    let mut out = vec![];
    let src = bj(&e["src"]);
    let src = if src.is_empty() { None } else { Some(Source::parse(Word::from_bytes(src).unwrap()).unwrap()) };
    let nick = e["nick"].as_array().unwrap().first().map(|n| Arg::from_bytes(bj(n)).unwrap());
    let caps: Vec<Key<'static>> = e["caps"].as_array().unwrap().iter().map(key).collect();
    vinezombie::client::cap::req(caps, nick, src.as_ref(), |m: ClientMsg<'static>| {
        let mut v = vec![];
        ClientCodec::write_to(&m, &mut v).unwrap();
        out.push(jb(&v));
    });
    json!(out)
}
fn run_defcaps(e: &Value) -> Value {
    let f = default_caps(keys(&e["caps"]), e["common"].as_bool().unwrap(), e["require"].as_bool().unwrap());
    let avail = keys(&e["avail"]);
    json!(f.require(&avail).iter().map(|k| jb(k.as_bytes())).collect::<Vec<_>>())
}
pub fn run(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "reg" => run_reg(c),
        "sasl" => run_sasl(c),
        "nick" => run_nick(c),
        "b64" => run_b64(c),
        "capreq" => run_capreq(c),
        _ => run_defcaps(c),
    }
}

// ------------------------------------------------------------------ generation
fn s(x: &str) -> Value {
    jb(x.as_bytes())
}
const NICKS: &[&str] = &["Me", "Foo", "zomb", "a", "Guest", "VNZB", "Long_Nickname_Here", "MeToo", "foo|bar", "\u{e9}t\u{e9}"];
const CAPS: &[&str] = &[
    "sasl", "sts", "multi-prefix", "account-tag", "message-tags", "server-time", "labeled-response", "echo-message", "batch",
    "draft/chathistory", "quickbrownfox/lazydog", "chghost", "setname",
];
const MECHS: &[&str] = &["PLAIN", "EXTERNAL", "SCRAM-SHA-256", "X-ONE", "X-TWO"];
fn b64(r: &mut Rng) -> String {
    (*r.pick(&["+", "Zm9v", "Zm8=", "Zg==", "AAAA", "=", "Zm9", "Zm9vYg==", "!!!!", "Zh=="])).to_string()
}
fn gen_sasl(r: &mut Rng, max: usize) -> Value {
    let n = r.below(max + 1);
    let v: Vec<Value> = (0..n)
        .map(|_| match r.below(8) {
            0..=2 => {
                let big = r.chance(1, 6);
                let pw: String = if big { "p".repeat(280 + r.below(700)) } else { (*r.pick(&["pw", "", "hunter2", "s3cr3t pass"])).into() };
                json!({"kind": "plain", "zid": s(*r.pick(&["", "admin"])), "cid": s(*r.pick(&["me", "user", ""])), "pw": s(&pw), "via": if r.chance(1, 2) { "password" } else { "plain" }})
            }
            3 => json!({"kind": "denied"}),
            4 => json!({"kind": "external", "zid": s(*r.pick(&["", "zid"]))}),
            _ => {
                let k = r.below(4);
                let script: Vec<Value> = (0..k)
                    .map(|_| {
                        if r.chance(1, 5) {
                            json!([])
                        } else {
                            let n = *r.pick(&[0, 1, 3, 20, 299, 300, 301, 600]);
                            json!([jb(&(0..n).map(|i| (i * 7 + 3) as u8).collect::<Vec<_>>())])
                        }
                    })
                    .collect();
                json!({"kind": "script", "name": s(MECHS[r.below(MECHS.len())]), "script": script})
            }
        })
        .collect();
    json!(v)
}
fn gen_suf(r: &mut Rng) -> Value {
    let up = r.chance(1, 2);
    let t = *r.pick(&["Letter", "Base8", "Base10", "Base16", "NonZeroBase8", "NonZeroBase10", "NonZeroBase16", "Choice", "Char"]);
    match t {
        "Choice" => {
            let n = *r.pick(&[0, 1, 2, 3, 7, 300]);
            json!({"t": t, "up": up, "opts": (0..n).map(|i| s(&format!("{}{}", ["x", "yy", "_", "|z"][i % 4], i))).collect::<Vec<_>>()})
        }
        "Char" => json!({"t": t, "up": up, "c": s(*r.pick(&["`", "_", "x", "!", "@", "\u{e9}", " ", ",", ":"]))}),
        _ => json!({"t": t, "up": up}),
    }
}
fn gen_sufs(r: &mut Rng, max: usize) -> Value {
    let n = r.below(max + 1);
    json!((0..n).map(|_| gen_suf(r)).collect::<Vec<_>>())
}
fn gen_nicks(r: &mut Rng, max: usize) -> Value {
    let n = r.below(max + 1);
    json!((0..n).map(|_| s(*r.pick(NICKS))).collect::<Vec<_>>())
}
fn gen_gen(r: &mut Rng, depth: usize, rng_ok: bool) -> Value {
    let nick1 = |r: &mut Rng| s(*r.pick(NICKS));
    match r.below(if depth > 0 { 9 } else { 5 }) {
        0 => json!({"t": "nick", "nick": nick1(r)}),
        1 => json!({"t": "iter", "nicks": gen_nicks(r, 4), "or": nick1(r), "viaor": r.chance(1, 2)}),
        2 => {
            if rng_ok && r.chance(1, 3) {
                let mut n = gen_nicks(r, 3);
                if n.as_array().unwrap().is_empty() {
                    n = json!([nick1(r)]);
                }
                json!({"t": "cycle", "nicks": n})
            } else {
                json!({"t": "nick", "nick": nick1(r)})
            }
        }
        3 | 4 => {
            let rng = rng_ok && r.chance(1, 3);
            let sufs = gen_sufs(r, 4);
            let rng = rng || (sufs.as_array().unwrap().is_empty() && rng_ok);
            if !rng && sufs.as_array().unwrap().is_empty() {
                return json!({"t": "nick", "nick": nick1(r)});
            }
            let mut d = json!({"t": "suffix", "strategy": if rng { "rng" } else { "seq" }, "prefix": nick1(r), "sufs": sufs});
            if rng && r.chance(1, 2) {
                d["seed"] = json!(r.next() as u32 as u64);
            }
            d
        }
        5 if rng_ok => json!({"t": "client", "nicks": gen_nicks(r, 3)}),
        6 if rng_ok => json!({"t": "bot", "nicks": gen_nicks(r, 3)}),
        7 if rng_ok => {
            // chain_using
            let a = gen_gen(r, 0, false);
            let first = gen_of(&a).peek();
            let mut b = json!({"t": "suffix", "strategy": *r.pick(&["seq", "rng"]), "prefix": jb(first.as_bytes()), "sufs": gen_sufs(r, 3)});
            if r.chance(1, 2) {
                b["seed"] = json!(r.next() as u32 as u64);
            }
            json!({"t": "chain", "using": true, "a": a, "b": b})
        }
        _ => json!({"t": "chain", "a": gen_gen(r, depth.saturating_sub(1), false), "b": gen_gen(r, depth.saturating_sub(1), rng_ok)}),
    }
}
fn gen_caps(r: &mut Rng, max: usize) -> Vec<&'static str> {
    let mut set = BTreeSet::new();
    for _ in 0..r.below(max + 1) {
        set.insert(*r.pick(CAPS));
    }
    set.into_iter().collect()
}
fn gen_cfg(r: &mut Rng) -> Value {
    let optv = |r: &mut Rng, xs: &[&str]| if r.chance(1, 2) { json!([]) } else { json!([s(*r.pick(xs))]) };
    json!({
        "mode": *r.pick(&["bot", "client", "custom", "custom"]),
        "pass": optv(r, &["pass", "p w", "", ":x"]),
        "nicks": gen_nicks(r, 3),
        "user": optv(r, &["zombie", "~x", "u"]),
        "real": optv(r, &["Real Name", "", "one", ":colon"]),
        "sasl": gen_sasl(r, 3),
        "allow": r.chance(1, 2),
        "caps": gen_caps(r, 3).iter().map(|c| s(c)).collect::<Vec<_>>(),
        "common": r.chance(1, 2),
        "require": r.chance(1, 2),
        "gen": gen_gen(r, 2, true),
    })
}
/// A plausible server script for the configuration, with deviations.
fn gen_lines(r: &mut Rng, c: &Value) -> Vec<Value> {
    let src = *r.pick(&[":s.example ", ":s.example ", "", ":srv!u@h ", "@time=1 :s.example "]);
    let mut v: Vec<String> = vec![];
    let noise = |r: &mut Rng, v: &mut Vec<String>, p: usize| {
        while r.chance(p, 24) {
            let l = match r.below(33) {
                0 => format!("PING {}", r.pick(&["tok", ":long token", ":", "a b"])),
                1 => "PING".into(),
                2 => format!("{src}NOTICE * :hi"),
                3..=6 => format!("{src}{} Me {} :in use", r.pick(&["433", "432", "436", "433"]), r.pick(&["Me", "Foo"])),
                7 => format!("{src}{} * :{}", r.pick(&["464", "465"]), "go away"),
                8 => format!("{src}464"),
                9 => "ERROR :closing".into(),
                10 => format!("{src}FAIL X Y :z"),
                11 => format!("{src}{} Me :x", r.pick(&["451", "401", "421", "500", "569", "568", "399", "696", "723", "691"])),
                12 => format!("{src}{} Me nick!user@host acct :logged in", "900"),
                13 => format!("{src}{} Me nick!user@host :logged out", "901"),
                14 => format!("{src}{} Me :x", r.pick(&["902", "903", "904", "905", "906", "907"])),
                15 => format!("{src}908 Me {} :are available", r.pick(&["PLAIN,EXTERNAL", "PLAIN", "X-ONE,X-TWO", "PLAIN EXTERNAL", ""])),
                16 => format!("{src}010 Me other.example {} :moved", r.pick(&["6667", "70000", "abc", "+6667", "0"])),
                17 => format!("{src}010 Me :moved"),
                18 => format!("{src}005 Me :Try server {}, port {}", r.pick(&["a.example", "", "x y"]), r.pick(&["6667", "99999", "6667 please", ""])),
                19 => format!("{src}{} Me :early", r.pick(&["004", "376", "422", "005", "001", "002", "003"])),
                20 => format!("{src}CAP * {} :{}", r.pick(&["ACK", "NAK", "DEL", "NEW", "LIST", "XX", "ls", "Ack"]), gen_caps(r, 2).join(" ")),
                21 => format!("{src}CAP {}", r.pick(&["*", "* LS", "* LS x :y", "* LS * :late=1", "* LS :again"])),
                22 => format!("{src}AUTHENTICATE {}", b64(r)),
                23 => format!("{src}AUTHENTICATE {}", "A".repeat(400)),
                24 => format!("{src}AUTHENTICATE"),
                25 => format!("{src}AUTHENTICATE :+"),
                26 => format!("{src}900 Me * {} :x", r.pick(&["acct", "me"])),
                27 => format!("{src}900 Me acct :x"),
                28 => format!("{src}900"),
                29 => format!("{src}901 Me"),
                30 => format!("{src}900 Me bad@src!x@ acct :x"),
                31 => format!("{src}904 Me"),
                _ => format!("{src}372 Me :- motd"),
            };
            v.push(l);
        }
    };
    let wanted: Vec<String> = c["caps"].as_array().unwrap().iter().map(|k| String::from_utf8(bj(k)).unwrap()).collect();
    let has_sasl = c["sasl"].as_array().unwrap().iter().any(|a| a["kind"] != "denied");
    let p = if r.chance(1, 2) { 1 } else { 5 };
    noise(r, &mut v, p);
    let mut acked: Vec<String> = vec![];
    if r.chance(9, 10) {
        let mut avail: Vec<String> = gen_caps(r, 5).iter().map(|x| x.to_string()).filter(|x| x != "sasl").collect();
        if r.chance(5, 6) {
            avail.extend(wanted.iter().filter(|x| *x != "sasl").cloned());
        }
        let offered = r.chance(5, 6);
        if offered {
            avail.push("sasl".into());
        }
        avail.sort();
        avail.dedup();
        let mut listed: Vec<String> = avail
            .iter()
            .map(|a| match a.as_str() {
                "sasl" => match r.below(4) {
                    0 => "sasl".into(),
                    1 => "sasl=PLAIN,EXTERNAL".into(),
                    2 => "sasl=plain,X-ONE,X-TWO,SCRAM-SHA-256".into(),
                    _ => format!("sasl={}", r.pick(&["PLAIN", "X-ONE", "", ",", "EXTERNAL,,"])),
                },
                "sts" => "sts=port=6697".into(),
                _ => {
                    if r.chance(1, 4) {
                        format!("{a}=v")
                    } else {
                        a.clone()
                    }
                }
            })
            .collect();
        if r.chance(1, 6) {
            listed.push((*r.pick(&["=x", "a;b", ";", "dup=1 dup=2", "~tilde"])).into());
        }
        let cut = r.below(listed.len() + 1);
        let sep = if r.chance(1, 5) { "  " } else { " " };
        if r.chance(1, 3) {
            v.push(format!("{src}CAP * LS * :{}", listed[..cut].join(sep)));
            noise(r, &mut v, p);
            v.push(format!("{src}CAP * LS :{}", listed[cut..].join(sep)));
        } else {
            v.push(format!("{src}CAP * LS :{}{}", listed.join(sep), if r.chance(1, 5) { " " } else { "" }));
        }
        noise(r, &mut v, p);
        // what the client will have asked for, roughly
        let common: BTreeSet<String> = common_caps().iter().map(|k| k.to_string()).collect();
        let mode = c["mode"].as_str().unwrap();
        let usecommon = mode == "client" || (mode == "custom" && c["common"].as_bool().unwrap());
        for a in &avail {
            if a != "sts" && (wanted.contains(a) || (usecommon && common.contains(a)) || (a == "sasl" && has_sasl)) {
                acked.push(a.clone());
            }
        }
        let all = acked.clone();
        if r.chance(1, 8) && !acked.is_empty() {
            acked.remove(r.below(all.len()));
        }
        if r.chance(1, 8) {
            acked.push("extra-cap".into());
        }
        if !acked.is_empty() {
            if r.chance(1, 4) {
                let k = r.below(acked.len() + 1);
                v.push(format!("{src}CAP Me ACK :{}", acked[..k].join(" ")));
                noise(r, &mut v, p);
                if r.chance(7, 8) {
                    v.push(format!("{src}CAP Me ACK :{}", acked[k..].join(" ")));
                } else {
                    v.push(format!("{src}CAP Me {} :{}", r.pick(&["NAK", "DEL"]), acked[k..].join(" ")));
                }
            } else if r.chance(7, 8) {
                v.push(format!("{src}CAP Me ACK :{}", acked.join(" ")));
            } else {
                v.push(format!("{src}CAP Me {} :{}", r.pick(&["NAK", "DEL"]), acked.join(" ")));
            }
        }
        noise(r, &mut v, p);
        if has_sasl && acked.iter().any(|a| a == "sasl") {
            for _ in 0..1 + r.below(4) {
                for _ in 0..r.below(3) {
                    match r.below(8) {
                        0..=3 => v.push(format!("{}AUTHENTICATE +", if r.chance(1, 2) { src } else { "" })),
                        4 => v.push(format!("AUTHENTICATE {}", b64(r))),
                        5 => {
                            v.push(format!("AUTHENTICATE {}", "Zm9v".repeat(100)));
                            v.push(format!("AUTHENTICATE {}", b64(r)));
                        }
                        6 => v.push(format!("AUTHENTICATE {}", "QUJD".repeat(1 + r.below(99)))),
                        _ => v.push("AUTHENTICATE".into()),
                    }
                }
                noise(r, &mut v, p);
                match r.below(9) {
                    0..=2 => {
                        v.push(format!("{src}900 Me Me!user@cloak.example acct :You are now logged in"));
                        v.push(format!("{src}903 Me :SASL authentication successful"));
                    }
                    3 => v.push(format!("{src}903 Me :ok")),
                    4..=5 => v.push(format!("{src}904 Me :SASL authentication failed")),
                    6 => v.push(format!("{src}906 Me :aborted")),
                    7 => v.push(format!("{src}908 Me {} :are available", r.pick(&["PLAIN,X-ONE", "EXTERNAL", "X-TWO"]))),
                    _ => v.push(format!("{src}{} Me :x", r.pick(&["902", "905", "907"]))),
                }
            }
        }
    }
    noise(r, &mut v, p);
    if r.chance(9, 10) {
        let n = *r.pick(NICKS);
        v.push(format!("{}001 {} :Welcome", if r.chance(1, 5) { ":other.example " } else { src }, r.pick(&[n, n, "*", "bad!nick", ":a b"])));
        if r.chance(1, 10) {
            v.push(format!("{src}001"));
        }
        noise(r, &mut v, p);
        if r.chance(2, 3) {
            v.push(format!("{src}002 Me :host"));
            v.push(format!("{src}004 Me {}", r.pick(&["s ver-1 iw bnt", "s", "s ver-2", ":s x"])));
        }
        for _ in 0..r.below(3) {
            let toks: Vec<String> = (0..r.below(5))
                .map(|_| {
                    (*r.pick(&[
                        "NICKLEN=30", "USERLEN=12", "HOSTLEN=90", "NETWORK=Example", "CHANTYPES=#", "NICKLEN=0", "USERLEN=abc", "HOSTLEN=", "EXCEPTS",
                        "NICKLEN=16", "=bad", "A;B", "USERLEN=70000", "HOSTLEN=64", "-NICKLEN", "PREFIX=(ov)@+", "USERLEN=+9",
                    ]))
                    .to_string()
                })
                .collect();
            v.push(format!("{src}005 {}{}{}", r.pick(&["Me", "Me", "*"]), if toks.is_empty() { String::new() } else { format!(" {}", toks.join(" ")) }, r.pick(&[" :are supported", ""])));
        }
        noise(r, &mut v, p);
        v.push(format!("{src}{} Me :end", r.pick(&["376", "422"])));
    }
    // a few structural deviations
    if r.chance(1, 4) && v.len() > 1 {
        for _ in 0..1 + r.below(3) {
            let i = r.below(v.len());
            match r.below(3) {
                0 => {
                    v.remove(i);
                    if v.is_empty() {
                        break;
                    }
                }
                1 => {
                    let l = v[i].clone();
                    v.insert(r.below(v.len() + 1), l);
                }
                _ => {
                    let j = r.below(v.len());
                    v.swap(i, j);
                }
            }
        }
    }
    v.truncate(60);
    v.iter().map(|l| s(l)).collect()
}
pub fn gen(r: &mut Rng, what: &str) -> Value {
    match what {
        "reg" => {
            let c = gen_cfg(r);
            let lines = gen_lines(r, &c);
            let again: Vec<Value> = (0..if r.chance(1, 4) { 1 + r.below(2) } else { 0 }).map(|_| json!(gen_lines(r, &c))).collect();
            json!({"op": "reg", "c": c, "lines": lines, "again": again})
        }
        "sasl" => {
            let n = 1 + r.below(10);
            let ops: Vec<Value> = (0..n)
                .map(|_| {
                    if r.chance(1, 8) {
                        let names: Vec<Value> = (0..r.below(4)).map(|_| s(*r.pick(MECHS))).collect();
                        return json!({"k": "retain", "names": names});
                    }
                    let l = match r.below(14) {
                        0..=3 => "AUTHENTICATE +".to_string(),
                        4 => format!("AUTHENTICATE {}", b64(r)),
                        5 => format!("AUTHENTICATE {}", "Zm9v".repeat(100)),
                        6 => format!(":s AUTHENTICATE {}", "Zm9v".repeat(r.below(120))),
                        7 => "AUTHENTICATE".into(),
                        8..=9 => format!(":s {} Me :failed", r.pick(&["904", "904", "902"])),
                        10 => format!(":s 906 Me :aborted"),
                        11 => format!(":s 908 Me {} :are available", r.pick(&["PLAIN,X-ONE", "EXTERNAL", "X-TWO,SCRAM-SHA-256", "PLAIN X-TWO"])),
                        12 => format!(":s {} Me :x", r.pick(&["900", "903", "905", "907", "901", "NOTICE"])),
                        _ => "PING x".into(),
                    };
                    json!({"k": "msg", "l": s(&l)})
                })
                .collect();
            json!({"op": "sasl", "sasl": gen_sasl(r, 5), "ops": ops})
        }
        "nick" => {
            let d = gen_gen(r, 3, true);
            let n = *r.pick(&[3, 8, 20, 300]);
            let mut ops = vec![];
            for _ in 0..n {
                if r.chance(1, 12) {
                    let mut k = r.pick(NICKS).to_string();
                    if r.chance(1, 2) {
                        k += *r.pick(&["`", "0", "_", "x0"]);
                    }
                    ops.push(json!({"k": "invalid", "nick": s(&k)}));
                } else {
                    ops.push(json!({"k": "next"}));
                }
            }
            json!({"op": "nick", "d": d, "ops": ops})
        }
        "b64" => {
            let max = *r.pick(&[0usize, 1, 2, 4, 5, 8, 400]);
            if r.chance(2, 3) {
                let n = if max < 10 { r.below(20) } else { *r.pick(&[0, 1, 2, 3, 100, 299, 300, 301, 302, 599, 600, 601, 900]) };
                json!({"op": "b64", "k": "enc", "b": jb(&(0..n).map(|_| r.next() as u8).collect::<Vec<_>>()), "max": max, "secret": r.chance(1, 2)})
            } else {
                let max = max.max(1);
                let chunks: Vec<Value> = (0..r.below(5))
                    .map(|_| match r.below(4) {
                        0 => s(&b64(r)),
                        1 => s(&"QUJD".repeat(max.div_ceil(4))[..max]),
                        2 => s("+"),
                        _ => s(&"Zm9vYmFy".repeat(1 + max / 8)[..r.below(max + 1)]),
                    })
                    .collect();
                json!({"op": "b64", "k": "dec", "chunks": chunks, "max": max})
            }
        }
        "capreq" => {
            let n = *r.pick(&[1usize, 2, 5, 30, 60]);
            let mut set = BTreeSet::new();
            for i in 0..n {
                let l = *r.pick(&[1usize, 3, 10, 20, 40, 200]);
                set.insert(format!("{}{}", "c".repeat(l), i));
            }
            let src = *r.pick(&["", "irc.example.com", "n!u@h", "a.very.long.server.name.that.goes.on.and.on.for.quite.some.time.example.com"]);
            let nick = if r.chance(1, 4) { json!([]) } else { json!([s(*r.pick(NICKS))]) };
            json!({"op": "capreq", "caps": set.iter().map(|x| s(x)).collect::<Vec<_>>(), "src": s(src), "nick": nick})
        }
        _ => json!({"op": "defcaps", "caps": gen_caps(r, 4).iter().map(|c| s(c)).collect::<Vec<_>>(), "common": r.chance(1, 2), "require": r.chance(1, 2),
                    "avail": gen_caps(r, 8).iter().map(|c| s(c)).collect::<Vec<_>>()}),
    }
}
pub fn record(ctx: &mut Ctx, kinds: &[&str]) {
    if let Some(inp) = ctx.input.take() {
        for c in inp {
            let mut c = c;
            for k in ["st", "out"] {
                c.as_object_mut().unwrap().remove(k);
            }
            let c2 = c.clone();
            ctx.case(c, || run(&c2));
        }
        return;
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n {
        let k = *r.pick(kinds);
        let c = gen(&mut r, k);
        let c2 = c.clone();
        ctx.case(c, || run(&c2));
    }
}
