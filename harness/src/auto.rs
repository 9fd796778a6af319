//! Background handlers: pings, CTCP replies, source tracking, message-yielding handlers.
use crate::core::*;
use crate::reg::{new_client, pump, src_json, Feed};
use serde_json::{json, Value};
use vinezombie::client::channel::*;
use vinezombie::client::handlers::*;
use vinezombie::client::state::*;
use vinezombie::client::*;
use vinezombie::ircmsg::*;
use vinezombie::names::cmd::*;
use vinezombie::names::NameMap;
use vinezombie::string::*;

type Tm = TargetedMsg<'static, Line<'static>>;
type Pong = (Option<Source<'static>>, std::time::Duration);
enum Recv {
    None,
    Ping(Option<<SyncChannels as ChannelSpec>::Oneshot<Pong>>),
    Ping1(Option<oneshot::Receiver<Pong>>),
    PingT(tokio::sync::oneshot::Receiver<Pong>),
    All(Rx<ServerMsg<'static>>),
    Parsed(Rx<Tm>),
}
/// The receiving end of any of the queue channels.
enum Rx<T> {
    Std(std::sync::mpsc::Receiver<T>),
    Tokio(tokio::sync::mpsc::UnboundedReceiver<T>),
    Weak(tokio::sync::mpsc::UnboundedSender<T>, tokio::sync::mpsc::UnboundedReceiver<T>),
    None,
}
impl<T: 'static + Send> Rx<T> {
    fn take(&mut self) -> Vec<T> {
        match self {
            Rx::Std(r) => r.try_iter().collect(),
            Rx::Tokio(r) | Rx::Weak(_, r) => std::iter::from_fn(|| r.try_recv().ok()).collect(),
            Rx::None => vec![],
        }
    }
    /// Makes it impossible to send more.
    fn close(&mut self, how: usize) {
        if let (Rx::Weak(..), 0) = (&*self, how % 2) {
            let Rx::Weak(s, r) = std::mem::replace(self, Rx::None) else { unreachable!() };
            drop(s);
            *self = Rx::Tokio(r);
        } else {
            *self = Rx::None;
        }
    }
}
/// Adds a handler that passes messages on over a channel of the kind asked for.
fn add_queue<T: SelfMadeHandler>(client: &mut Client<Feed, SyncChannels>, ch: &str, h: T) -> (usize, Rx<T::Value>)
where
    T: SelfMadeHandler<Receiver<SyncChannels> = std::sync::mpsc::Receiver<<T as Handler>::Value>>,
    T: SelfMadeHandler<Receiver<TokioChannels> = tokio::sync::mpsc::UnboundedReceiver<<T as Handler>::Value>>,
    T::Value: Send,
{
    match ch {
        "std" => {
            let (i, r) = client.add((), h).unwrap();
            (i, Rx::Std(r))
        }
        "tokio" => {
            let (i, r) = client.add_with_spec(&TokioChannels, (), h).unwrap();
            (i, Rx::Tokio(r))
        }
        "weak" => {
            let (s, r) = tokio::sync::mpsc::unbounded_channel();
            let i = client.add_with_sender(Box::new(s.downgrade()), (), h).unwrap();
            (i, Rx::Weak(s, r))
        }
        "parker" => {
            let (s, r) = std::sync::mpsc::channel();
            let (u, _p) = parker::new(s);
            (client.add_with_sender(Box::new(u), (), h).unwrap(), Rx::Std(r))
        }
        _ => {
            // a sender that has nothing left to send with, or whose receiver is gone
            let s: Box<dyn channel::Sender<Value = T::Value> + Send> = match client.state().source_len().get() % 3 {
                0 => Box::new(None::<tokio::sync::oneshot::Sender<T::Value>>),
                1 => Box::new(None::<oneshot::Sender<T::Value>>),
                _ => Box::new(Some(oneshot::channel().0)),
            };
            (client.add_with_sender(s, (), h).unwrap(), Rx::None)
        }
    }
}
fn parse_src(v: &Value) -> Source<'static> {
    // <<nick>> or <<nick, user-option, host>>
    let a = v.as_array().unwrap();
    let nick = Nick::from_bytes(bj(&a[0])).unwrap();
    let userhost = if a.len() == 3 {
        Some(UserHost {
            user: a[1].as_array().unwrap().first().map(|u| User::from_bytes(bj(u)).unwrap()),
            host: Word::from_bytes(bj(&a[2])).unwrap(),
        })
    } else {
        None
    };
    Source { nick, userhost }
}
fn own_json(st: &ClientState) -> Value {
    opt(st.get::<ClientSource>().map(src_json))
}
fn isup_map(v: &Value) -> NameMap<vinezombie::names::ISupport> {
    let mut m = NameMap::new();
    {
        let mut e = m.edit();
        for p in v.as_array().unwrap() {
            e.insert((Key::from_bytes(bj(&p[0])).unwrap(), Word::from_bytes(bj(&p[1])).unwrap()), ());
        }
    }
    m
}
fn set_state(st: &mut ClientState, c: &Value) {
    if let Some(s) = c["own"].as_array().unwrap().first() {
        st.insert::<ClientSource>(parse_src(s));
    }
    if !c["isup"].as_array().unwrap().is_empty() || c["noisup"] != true {
        st.insert::<ISupport>(isup_map(&c["isup"]));
    }
}
fn parsed_handler(h: &Value) -> YieldParsed<Tm> {
    let mut p: Option<YieldParsed<Tm>> = None;
    for k in h["kinds"].as_array().unwrap() {
        let flat = k["flat"].as_i64().unwrap();
        let via = k["via"].as_str().unwrap_or("");
        let mut calls = 0usize;
        // starting with the first kind, or from one that parses nothing
        let just = p.is_none() && via.starts_with("just");
        let q = p.take().unwrap_or_else(YieldParsed::new);
        macro_rules! with {
            ($k:ident, $f:expr) => {{
                let mut f = $f;
                if flat == -2 {
                    let g = move |m| {
                        let n = calls % 3;
                        calls += 1;
                        vec![f(m); n]
                    };
                    if just { YieldParsed::just_flat_map($k, g) } else { q.with_flat_map($k, g) }
                } else if via.ends_with("map") && flat < 2 {
                    #[allow(deprecated)]
                    let g = move |m| Some(f(m)).filter(|_| flat != 0);
                    #[allow(deprecated)]
                    if just { YieldParsed::just_map($k, g) } else { q.with_map($k, g) }
                } else {
                    let g = move |m| std::iter::repeat(f(m)).take(if flat < 0 { 1 } else { flat as usize });
                    if just { YieldParsed::just_flat_map($k, g) } else { q.with_flat_map($k, g) }
                }
            }};
            ($k:ident) => {
                if flat == -1 && !via.ends_with("map") {
                    if just { YieldParsed::just($k) } else { q.with($k) }
                } else {
                    with!($k, |m: Tm| m)
                }
            };
        }
        p = Some(match String::from_utf8(bj(&k["k"])).unwrap().as_str() {
            "PRIVMSG" => with!(PRIVMSG),
            "NOTICE" => with!(NOTICE),
            "PART" => with!(PART),
            "QUIT" => with!(QUIT),
            "TOPIC" => with!(TOPIC),
            "JOIN" => with!(JOIN, |m: TargetedMsg<'static, ()>| m.map(|_| Line::from_str("joined"))),
            _ => with!(WALLOPS),
        });
    }
    p.unwrap_or_else(YieldParsed::new)
}
fn pong_json(v: Option<Pong>) -> Value {
    match v {
        Some((s, d)) => json!([{"src": s.as_ref().map(src_json).unwrap_or(json!([])), "ms": d.as_millis() as u64}]),
        None => json!(["lost"]),
    }
}
/// Runs the client on what it was fed and tells which handlers were reported as (yielding, finished).
fn pump_ids(client: &mut Client<Feed, SyncChannels>, ids: &[usize]) -> (Vec<usize>, Vec<usize>) {
    match client.run() {
        Ok(Some((a, b))) => {
            let at = |x: &usize| ids.iter().position(|y| x == y).map(|p| p + 1).unwrap_or(0);
            (a.iter().map(at).collect(), b.iter().map(at).collect())
        }
        Ok(None) => panic!("timeout reported without a limit"),
        Err(e) if e.to_string() == "stall" => (vec![], vec![]),
        Err(e) => panic!("run failed: {e}"),
    }
}
fn run_auto(c: &Value) -> Value {
    vclock(true);
    let feed = Feed::default();
    let mut client = new_client(&feed);
    set_state(client.state_mut(), c);
    client.state_mut().update_source_len();
    let mut recvs = vec![];
    let mut ids = vec![];
    let mut adds = vec![];
    for h in c["hs"].as_array().unwrap() {
        let r = match h["h"].as_str().unwrap() {
            "pong" => {
                ids.push(client.add((), AutoPong).unwrap().0);
                Recv::None
            }
            "ctcp" => {
                let v = CtcpVersion { version: Line::from_bytes(bj(&h["version"])).unwrap(), source: Line::from_bytes(bj(&h["source"])).unwrap() };
                ids.push(client.add((), v).unwrap().0);
                Recv::None
            }
            "track" => {
                ids.push(client.add((), TrackClientSource::new()).unwrap().0);
                Recv::None
            }
            "ping" => {
                // a distinct instant per ping, so that the tokens differ; the age counts from the base
                let p = Ping(std::time::Instant::now());
                match h["ch"].as_str().unwrap() {
                    "std" | "parker" => {
                        let (i, r) = client.add((), p).unwrap();
                        ids.push(i);
                        Recv::Ping(Some(r))
                    }
                    "tokio" => {
                        let (i, r) = client.add_with_spec(&TokioChannels, (), p).unwrap();
                        ids.push(i);
                        Recv::PingT(r)
                    }
                    "weak" => {
                        let (s, r) = oneshot::channel();
                        ids.push(client.add_with_sender(Box::new(Some(s)), (), p).unwrap());
                        Recv::Ping1(Some(r))
                    }
                    _ => {
                        ids.push(client.add_with_sender(Box::new(None::<tokio::sync::oneshot::Sender<Pong>>), (), p).unwrap());
                        Recv::None
                    }
                }
            }
            "all" => {
                let (i, r) = add_queue(&mut client, h["ch"].as_str().unwrap(), YieldAll);
                ids.push(i);
                Recv::All(r)
            }
            _ => {
                let (i, r) = add_queue(&mut client, h["ch"].as_str().unwrap(), parsed_handler(h));
                ids.push(i);
                Recv::Parsed(r)
            }
        };
        recvs.push(r);
        // the queue is written out by run(); nothing can be read yet
        pump(&mut client);
        adds.push(json!({"out": feed.take_lines(), "len": client.state().source_len().get()}));
    }
    let toks: Vec<Vec<u8>> = adds
        .iter()
        .map(|a| a["out"].as_array().unwrap().first().map(|l| bj(l).split(|b| *b == b' ').next_back().unwrap().to_vec()).unwrap_or_default())
        .collect();
    let mut steps = vec![];
    for l in c["lines"].as_array().unwrap() {
        tick();
        let ms = l["ms"].as_i64().unwrap();
        advance_ms(ms);
        let fed = if let Some(j) = l["pong"].as_u64() {
            let mut t = toks.get(j as usize).cloned().unwrap_or_default();
            match l["how"].as_str().unwrap() {
                "exact" => (),
                "cut" => {
                    t.pop();
                }
                "more" => t.push(b'0'),
                "zero" => t.insert(0, b'0'),
                _ => {
                    if let Some(b) = t.last_mut() {
                        *b = if *b == b'0' { b'1' } else { b'0' };
                    }
                }
            }
            let mut v = bj(&l["l"]);
            v.extend(t);
            v
        } else {
            bj(&l["l"])
        };
        for j in l["drop"].as_array().into_iter().flatten() {
            let j = j.as_u64().unwrap() as usize - 1;
            match &mut recvs[j] {
                Recv::All(r) => r.close(steps.len()),
                Recv::Parsed(r) => r.close(steps.len()),
                r => *r = Recv::None,
            }
        }
        feed.feed(&fed);
        let (mut yid, mut fin) = pump_ids(&mut client, &ids);
        let (y2, f2) = pump_ids(&mut client, &ids);
        yid.extend(y2);
        fin.extend(f2);
        let y: Vec<Value> = recvs
            .iter_mut()
            .map(|r| match r {
                Recv::None => json!([]),
                Recv::Ping(o) => {
                    // peek without blocking
                    let ready = o.as_ref().is_some_and(|(r, _)| !r.is_empty());
                    if ready {
                        let (r, _p) = o.take().unwrap();
                        pong_json(r.recv_now())
                    } else {
                        json!([])
                    }
                }
                Recv::Ping1(o) => {
                    if o.as_ref().is_some_and(|r| !r.is_empty()) {
                        pong_json(o.take().unwrap().recv_now())
                    } else {
                        json!([])
                    }
                }
                Recv::PingT(r) => match r.try_recv() {
                    Ok(v) => pong_json(Some(v)),
                    Err(_) => json!([]),
                },
                Recv::All(q) => q
                    .take()
                    .into_iter()
                    .map(|m| {
                        let mut v = vec![];
                        ServerCodec::write_to(&m, &mut v).unwrap();
                        json!({"raw": jb(&v)})
                    })
                    .collect(),
                Recv::Parsed(q) => q
                    .take()
                    .into_iter()
                    .map(|m| {
                        let tags = crate::msg::jtags(&m.tags);
                        json!({"tags": tags, "src": m.source.as_ref().map(|s| src_json(s)).unwrap_or(json!([])), "target": jb(m.target.as_bytes()), "value": jb(m.value.as_bytes())})
                    })
                    .collect(),
            })
            .collect();
        steps.push(json!({"fed": jb(&fed), "ms": ms, "out": feed.take_lines(), "y": y, "yid": yid, "fin": fin, "own": own_json(client.state()), "len": client.state().source_len().get()}));
    }
    json!({"adds": adds, "steps": steps})
}
fn run_srclen(c: &Value) -> Value {
    let mut st = ClientState::new();
    set_state(&mut st, c);
    let own = c["own"].as_array().unwrap().first().map(parse_src);
    let r = if c["upd"] == true { st.update_source_len() } else { st.update_source_len_from(own.as_ref(), c["tilde"].as_bool().unwrap()) };
    assert_eq!(r, st.source_len());
    json!(r.get())
}
/// A handler that sends (and asks) as it is told.
struct Sending(std::sync::Arc<std::sync::Mutex<(Vec<String>, Vec<Value>, i64)>>);
impl Handler for Sending {
    type Value = i64;
    fn handle(&mut self, _: &ServerMsg<'_>, _: &mut ClientState, _: queue::QueueEditGuard<'_>, mut ch: SenderRef<'_, i64>) -> std::ops::ControlFlow<()> {
        use std::ops::ControlFlow::*;
        let (ops, outs, next) = &mut *self.0.lock().unwrap();
        for op in std::mem::take(ops) {
            outs.push(json!(match op.as_str() {
                "send" => {
                    let v = *next;
                    *next += 1;
                    match ch.send(v) {
                        Continue(()) => "more",
                        Break(Sent::Ok) => "sent",
                        Break(Sent::Closed) => "closed",
                    }
                }
                "did" if ch.did_send() => "yes",
                "may" if ch.may_send() => "yes",
                _ => "no",
            }));
        }
        Continue(())
    }
}
impl SelfMadeHandler for Sending {
    type Receiver<Spec: ChannelSpec> = Spec::Queue<i64>;
    fn queue_msgs(&self, _: &ClientState, _: queue::QueueEditGuard<'_>) {}
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn channel::Sender<Value = i64> + Send>, Self::Receiver<Spec>) {
        spec.new_queue()
    }
}
fn run_send(c: &Value) -> Value {
    fn boxed<S: channel::Sender<Value = i64> + Send + 'static>(s: S, wrap: bool, parkers: &mut Vec<parker::Parker>) -> Box<dyn channel::Sender<Value = i64> + Send> {
        if wrap {
            let (u, p) = parker::new(s);
            parkers.push(p);
            Box::new(u)
        } else {
            Box::new(s)
        }
    }
    let wrap = c["wrap"].as_bool().unwrap();
    let mut ps = Vec::new();
    let mut q = Rx::None;
    let mut strong = None;
    let mut one = None;
    let mut tone = None;
    let sender = match c["kind"].as_str().unwrap() {
        "closed" => boxed(ClosedSender::default(), wrap, &mut ps),
        "gone" => boxed(None::<oneshot::Sender<i64>>, wrap, &mut ps),
        "std" => {
            let (s, r) = std::sync::mpsc::channel();
            q = Rx::Std(r);
            boxed(s, wrap, &mut ps)
        }
        "one" => {
            let (s, r) = oneshot::channel();
            one = Some(r);
            boxed(Some(s), wrap, &mut ps)
        }
        "tone" => {
            let (s, r) = tokio::sync::oneshot::channel();
            tone = Some(r);
            boxed(Some(s), wrap, &mut ps)
        }
        "tun" => {
            let (s, r) = tokio::sync::mpsc::unbounded_channel();
            q = Rx::Tokio(r);
            boxed(s, wrap, &mut ps)
        }
        _ => {
            let (s, r) = tokio::sync::mpsc::unbounded_channel();
            q = Rx::Tokio(r);
            let w = s.downgrade();
            strong = Some(s);
            boxed(w, wrap, &mut ps)
        }
    };
    let feed = Feed::default();
    let mut client = new_client(&feed);
    let told = std::sync::Arc::new(std::sync::Mutex::new((vec![], vec![], 1i64)));
    let id = client.add_with_sender(sender, (), Sending(told.clone())).unwrap();
    let ids = vec![id];
    let mut steps = vec![];
    for st in c["steps"].as_array().unwrap() {
        let mut got: Vec<i64> = vec![];
        match st["pre"].as_str().unwrap() {
            "drop" => {
                q = Rx::None;
                one = None;
                tone = None;
            }
            "cut" => strong = None,
            "take" => {
                got = q.take();
                if one.as_ref().is_some_and(|r| !r.is_empty()) {
                    got.extend(one.take().and_then(|r| r.recv_now()));
                }
                got.extend(tone.as_mut().and_then(|r| r.try_recv().ok()));
            }
            _ => (),
        }
        told.lock().unwrap().0 = st["ops"].as_array().unwrap().iter().map(|o| o.as_str().unwrap().to_owned()).collect();
        feed.feed(b"X");
        let (mut y, mut f) = pump_ids(&mut client, &ids);
        let (y2, f2) = pump_ids(&mut client, &ids);
        y.extend(y2);
        f.extend(f2);
        let outs = std::mem::take(&mut told.lock().unwrap().1);
        steps.push(json!({"got": got, "outs": outs, "y": y.len(), "f": f.len()}));
    }
    json!(steps)
}
pub fn run(c: &Value) -> Value {
    if c["op"] == "send" {
        run_send(c)
    } else if c["op"] == "auto" {
        run_auto(c)
    } else {
        run_srclen(c)
    }
}

// ------------------------------------------------------------------ generation
fn s(x: &str) -> Value {
    jb(x.as_bytes())
}
const ME: &[&str] = &["Me", "Me", "Me", "Me", "Me", "me", "Me2", "Other", "M\u{e9}", "a*b"];
const USERS: &[&str] = &["u", "~u", "~verylongusername", "user"];
const HOSTS: &[&str] = &["h", "a.very.long.host.name.example.com", "1::2", "h@x"];
fn gen_own(r: &mut Rng) -> Value {
    if r.chance(1, 8) {
        return json!([]);
    }
    let n = s(r.pick(ME));
    json!([match r.below(4) {
        0 => json!([n]),
        1 => json!([n, [], s(r.pick(HOSTS))]),
        _ => json!([n, [s(r.pick(USERS))], s(r.pick(HOSTS))]),
    }])
}
fn gen_isup(r: &mut Rng) -> Value {
    let mut m = std::collections::BTreeMap::new();
    for _ in 0..r.below(4) {
        m.insert(*r.pick(&["NICKLEN", "USERLEN", "HOSTLEN", "NETWORK"]), *r.pick(&["1", "30", "0", "", "abc", "65535", "65536", "+7", "012"]));
    }
    json!(m.iter().map(|(k, v)| json!([s(k), s(v)])).collect::<Vec<_>>())
}
fn gen_line(r: &mut Rng) -> String {
    let me = *r.pick(&["Me", "Me", "Me", "Me2", "me", "Other"]);
    let src = match r.below(6) {
        0 => String::new(),
        1 => ":irc.example ".into(),
        2 => format!(":{me} "),
        3 => format!(":{me}@h "),
        _ => format!(":{me}!u@h "),
    };
    let tags = if r.chance(1, 6) { "@time=12:00;+x/y=a\\sb " } else { "" };
    let ctcp = |r: &mut Rng| -> String {
        let cmd = *r.pick(&["VERSION", "SOURCE", "version", "Source", "PING", "ACTION", "VERSIONS", "", "VERSION\u{2}"]);
        let sep = *r.pick(&["", " ", " x y", "  "]);
        let end = *r.pick(&["\u{1}", "\u{1}", "", "\u{1}trail"]);
        format!("\u{1}{cmd}{sep}{end}")
    };
    let body = match r.below(20) {
        0 => format!("PING {}", r.pick(&["tok", ":with space", ":", "a b", ":tok", "a b :c d"])),
        1 => "PING".into(),
        2 => format!("{} {}", r.pick(&["ping", "Ping", "PONG", "PINGS"]), r.pick(&["tok", "17"])),
        3..=6 => format!("PRIVMSG {} :{}", r.pick(&["Me", "#chan", "me"]), ctcp(r)),
        7 => format!("NOTICE Me :{}", ctcp(r)),
        8 => format!("{} Me :{}", r.pick(&["TOPIC", "PART", "WALLOPS", "QUIT", "JOIN"]), ctcp(r)),
        9 => format!("PRIVMSG Me extra :{}", ctcp(r)),
        10 => format!("PRIVMSG :{}", ctcp(r)),
        11 => format!("PRIVMSG Me VERSION"),
        12 => format!("NICK {}", r.pick(&["Me2", ":Me", "Other", "Bad!nick", "", "Me Me", ":long nick", "Longer_Nickname", "M"])),
        13 => format!("CHGHOST {}", r.pick(&["u newhost.example", "~u h", "u%x h", "u", "u h extra", "user :new host", "~veryverylong hosthost"])),
        14..=16 => {
            let items = *r.pick(&[
                ":Me=+u@h", "Me=+~u@host.example", "Me*=-u@h", "Me=u@h", "me=+u@h", "Other=+a@b Me=+u@h", ":Other=+a@b Me=+u@h", "Me=+u%@h Me=+v@h",
                "Me=+@h", "Me=+u@", "Me=+u", "Me", "Me*+u@h", "Me=+u@h@i", "", "Me2=+q@r", ":Me=+u@h ", "Me=*+u@h", "Me**=+u@h", "M=+u@h", "MeMe=+u@h",
            ]);
            format!("302 Me {items}")
        }
        17 => format!("{} {}", r.pick(&["QUIT", "WALLOPS", "PART", "TOPIC", "NOTICE"]), r.pick(&[":bye now", "x", "#c :a b", "#c x", ""])),
        18 => (*r.pick(&["302", "JOIN #c", "JOIN :#c", "JOIN", "JOIN :#c d", "JOIN #c * :name", "join #d"])).into(),
        _ => format!("{} Me :hello", r.pick(&["PRIVMSG", "NOTICE", "001", "ERROR"])),
    };
    format!("{tags}{src}{body}")
}
fn gen_h(r: &mut Rng) -> Value {
    let a = *r.pick(&["client 1.0", "", "x", ":colon"]);
    let b = *r.pick(&["https://example.com", "", "y z"]);
    match r.below(10) {
        0..=1 => json!({"h": "pong", "version": [], "source": [], "kinds": []}),
        2..=3 => json!({"h": "ctcp", "version": s(a), "source": s(b), "kinds": []}),
        4 | 9 => json!({"h": "ping", "version": [], "source": [], "kinds": []}),
        5..=7 => json!({"h": "track", "version": [], "source": [], "kinds": []}),
        _ => {
            let kinds: Vec<Value> = (0..r.below(5))
                .map(|_| json!({"k": s(r.pick(&["PRIVMSG", "PRIVMSG", "NOTICE", "PART", "QUIT", "TOPIC", "WALLOPS", "JOIN"])), "flat": *r.pick(&[-1, -1, 0, 1, 2, -2]),
                    "via": *r.pick(&["with", "just", "map", "justmap"])}))
                .collect();
            json!({"h": "parsed", "version": [], "source": [], "kinds": kinds})
        }
    }
}
pub fn record(ctx: &mut Ctx) {
    if let Some(inp) = ctx.input.take() {
        for c in inp {
            let mut c = c;
            for k in ["st", "out"] {
                c.as_object_mut().unwrap().remove(k);
            }
            let c2 = c.clone();
            ctx.case(c, || run(&c2));
        }
        return;
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n {
        let c = if r.chance(1, 6) {
            let own = gen_own(&mut r);
            let upd = r.chance(1, 2);
            json!({"op": "srclen", "own": own, "isup": gen_isup(&mut r), "noisup": r.chance(1, 2), "upd": upd, "tilde": upd || r.chance(1, 2)})
        } else {
            let mut hs: Vec<Value> = (0..r.below(5)).map(|_| gen_h(&mut r)).collect();
            if r.chance(1, 8) {
                let at = r.below(hs.len() + 1);
                hs.insert(at, json!({"h": "all", "version": [], "source": [], "kinds": []}));
            }
            // somebody must be listening for messages to be read
            let at = r.below(hs.len() + 1);
            hs.insert(at, json!({"h": "all", "version": [], "source": [], "kinds": []}));
            let n = 1 + r.below(8);
            let may: Vec<usize> = (0..hs.len()).filter(|k| *k != at && ["all", "parsed", "ping"].contains(&hs[*k]["h"].as_str().unwrap())).map(|k| k + 1).collect();
            let quits = r.chance(1, 3);
            let mut lines: Vec<Value> = (0..n)
                .map(|_| {
                    let ms = *r.pick(&[0, 1, 70, 1500]);
                    if r.chance(1, 6) {
                        let pre = *r.pick(&["PONG ", ":s PONG s ", ":s PONG s :", "PONG x y ", "PING ", ":a!b@c PONG ", "pong ", "NOTICE x "]);
                        let ps: Vec<usize> = (0..hs.len()).filter(|k| hs[*k]["h"] == "ping").collect();
                        let at = if ps.is_empty() { r.below(hs.len()) } else { *r.pick(&ps) };
                        json!({"l": s(pre), "pong": at, "how": *r.pick(&["exact", "exact", "exact", "cut", "more", "zero", "flip"]), "ms": ms})
                    } else {
                        json!({"l": s(&gen_line(&mut r)), "ms": ms})
                    }
                })
                .collect();
            for (k, h) in hs.iter_mut().enumerate() {
                let ch = if r.chance(1, 2) { "std" } else { *r.pick(&["tokio", "weak", "parker", "closed"]) };
                h["ch"] = json!(if k == at && ch == "closed" { "weak" } else { ch });
            }
            for l in lines.iter_mut() {
                l["drop"] = if quits && !may.is_empty() && r.chance(1, 3) { json!([*r.pick(&may)]) } else { json!([]) };
            }
            json!({"op": "auto", "own": gen_own(&mut r), "isup": gen_isup(&mut r), "noisup": r.chance(1, 2), "hs": hs, "lines": lines})
        };
        let c2 = c.clone();
        ctx.case(c, || run(&c2));
    }
}
