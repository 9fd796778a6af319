//! Message grammar driver: parse / build+write+read / argument editing / ctcp / source.
use crate::core::*;
use bytes::BytesMut;
use serde_json::{json, Value};
use std::future::Future;
use tokio_util::codec::{Decoder, Encoder};
use vinezombie::error::ParseError;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

pub fn block_on<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap().block_on(f)
}

pub fn perr(e: &ParseError) -> &'static str {
    match e {
        ParseError::TooLong => "TooLong",
        ParseError::MissingField(_) => "MissingField",
        ParseError::InvalidField(_, _) => "InvalidField",
        ParseError::InvalidLine(_) => "InvalidLine",
        ParseError::InvalidNick(_) => "InvalidNick",
        ParseError::InvalidUser(_) => "InvalidUser",
        ParseError::InvalidHost(_) => "InvalidHost",
        ParseError::InvalidKind(_) => "InvalidKind",
        _ => "Other",
    }
}
pub fn ioerr(e: &std::io::Error) -> String {
    if let Some(inner) = e.get_ref() {
        if let Some(p) = inner.downcast_ref::<ParseError>() {
            return perr(p).into();
        }
        if inner.downcast_ref::<vinezombie::error::InvalidString>().is_some() {
            return "InvalidLine".into();
        }
    }
    format!("{:?}", e.kind())
}
pub fn jtags(t: &Tags<'_>) -> Value {
    // Only the public serialised form exposes iteration; use it when values are UTF-8,
    // otherwise fall back to the written form's keys plus get().
    let mut wr = Vec::new();
    t.write_to(&mut wr).unwrap();
    let mut out = Vec::new();
    if !wr.is_empty() {
        for seg in wr[1..].split(|b| *b == b';') {
            let k = seg.split(|b| *b == b'=').next().unwrap().to_vec();
            let v = Key::from_bytes(k.clone()).ok().and_then(|k| t.get(k).cloned());
            let v = v.map(|v| v.as_bytes().to_vec()).unwrap_or_else(|| b"?missing?".to_vec());
            out.push(json!([jb(&k), jb(&v)]));
        }
    }
    if out.len() != t.len() {
        out.push(json!([jb(b"?len?"), jb(b"")]));
    }
    Value::Array(out)
}
pub fn jsrc(s: &Source<'_>) -> Value {
    match &s.userhost {
        None => json!([jb(s.nick.as_bytes())]),
        Some(uh) => json!([
            jb(s.nick.as_bytes()),
            opt(uh.user.as_ref().map(|u| jb(u.as_bytes()))),
            jb(uh.host.as_bytes())
        ]),
    }
}
pub fn jargs(a: &Args<'_>) -> (Value, bool) {
    let (ws, last) = a.split_last();
    let mut v: Vec<Value> = ws.iter().map(|w| jb(w.as_bytes())).collect();
    if let Some(l) = last {
        v.push(jb(l.as_bytes()));
    }
    (Value::Array(v), a.is_last_long())
}
pub fn jserver(m: &ServerMsg<'_>) -> Value {
    let (args, long) = jargs(&m.args);
    json!({"ok": true, "tags": jtags(&m.tags), "src": m.source.as_deref().map(jsrc).unwrap_or(json!([])),
        "kind": jb(m.kind.as_str().as_bytes()), "args": args, "long": long})
}
pub fn jclient(m: &ClientMsg<'_>) -> Value {
    let (args, long) = jargs(&m.args);
    json!({"ok": true, "tags": jtags(&m.tags), "src": json!([]),
        "kind": jb(m.cmd.as_str().as_bytes()), "args": args, "long": long})
}
fn jr<T>(r: Result<T, ParseError>, f: impl Fn(&T) -> Value) -> Value {
    match r {
        Ok(m) => f(&m),
        Err(e) => jerr(&e),
    }
}
/// An error: its kind, whether it names a cause, and whether its text includes the cause's.
fn jerr(e: &ParseError) -> Value {
    let cause = std::error::Error::source(e);
    json!({"ok": false, "err": perr(e), "cause": cause.is_some(), "told": cause.map(|c| e.to_string().ends_with(&c.to_string())).unwrap_or(true) && !e.to_string().is_empty()})
}
/// Owning copies of what was parsed out of a buffer that is overwritten afterwards.
fn outlived(side: &str, wr: &[u8], read: bool) -> Value {
    let mut buf = wr.to_vec();
    macro_rules! go {
        ($M:ident, $C:ident, $j:expr) => {
            if read {
                buf.extend_from_slice(b"\r\n");
                let mut b = Vec::new();
                let r = $C::read_owning_from(&mut buf.as_slice(), &mut b);
                let cap = b.capacity();
                b.clear();
                b.resize(cap, b'#');
                jio(r, $j)
            } else {
                let r = $M::parse(buf.as_slice()).map(|m| m.owning());
                buf.fill(b'#');
                jr(r, $j)
            }
        };
    }
    if side == "server" {
        go!(ServerMsg, ClientCodec, jserver)
    } else {
        go!(ClientMsg, ServerCodec, jclient)
    }
}
fn jio<T>(r: std::io::Result<T>, f: impl Fn(&T) -> Value) -> Value {
    match r {
        Ok(m) => f(&m),
        Err(e) => json!({"ok": false, "err": ioerr(&e)}),
    }
}
fn dedup(v: Vec<Value>) -> Value {
    let mut out: Vec<Value> = Vec::new();
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    Value::Array(out)
}

/// Every way of reading the line `wr` (without terminator) as one message.
fn readbacks(side: &str, wr: &[u8], all: bool) -> Value {
    let mut v = Vec::new();
    let mut crlf = wr.to_vec();
    crlf.extend_from_slice(b"\r\n");
    if side == "server" {
        v.push(jr(ServerMsg::parse(wr), jserver));
        v.push(jr(ServerMsg::parse(wr.to_vec()).map(|m| m.owning()), jserver));
        if all {
            let mut b = Vec::new();
            v.push(jio(ClientCodec::read_owning_from(&mut crlf.as_slice(), &mut b), jserver));
            let mut b = Vec::new();
            v.push(jio(ClientCodec::read_borrowing_from(&mut crlf.as_slice(), &mut b), jserver));
            let mut b = Vec::new();
            v.push(jio(block_on(ClientCodec::read_owning_from_tokio(&mut crlf.as_slice(), &mut b)), jserver));
            let mut b = Vec::new();
            v.push(jio(block_on(ClientCodec::read_borrowing_from_tokio(&mut crlf.as_slice(), &mut b)), jserver));
            let mut b = BytesMut::from(crlf.as_slice());
            v.push(jio(ClientCodec.decode(&mut b).map(|o| o.expect("complete line")), jserver));
        }
    } else {
        v.push(jr(ClientMsg::parse(wr), jclient));
        v.push(jr(ClientMsg::parse(wr.to_vec()).map(|m| m.owning()), jclient));
        if all {
            let mut b = Vec::new();
            v.push(jio(ServerCodec::read_owning_from(&mut crlf.as_slice(), &mut b), jclient));
            let mut b = Vec::new();
            v.push(jio(ServerCodec::read_borrowing_from(&mut crlf.as_slice(), &mut b), jclient));
            let mut b = Vec::new();
            v.push(jio(block_on(ServerCodec::read_owning_from_tokio(&mut crlf.as_slice(), &mut b)), jclient));
            let mut b = Vec::new();
            v.push(jio(block_on(ServerCodec::read_borrowing_from_tokio(&mut crlf.as_slice(), &mut b)), jclient));
            let mut b = BytesMut::from(crlf.as_slice());
            v.push(jio(ServerCodec.decode(&mut b).map(|o| o.expect("complete line")), jclient));
        }
    }
    dedup(v)
}

#[allow(deprecated)]
fn parse_case(side: &str, line: &[u8]) -> Value {
    let mut out = if side == "server" {
        match ServerMsg::parse(line) {
            Ok(m) => {
                let mut o = jserver(&m);
                let mut wr = Vec::new();
                ServerCodec::write_to(&m, &mut wr).unwrap();
                o["wr"] = jb(&wr);
                o["left"] = json!(m.bytes_left());
                o["lenb"] = json!(m.args.len_bytes());
                o["nargs"] = json!(m.args.len());
                o["slen"] = json!(m.source.as_deref().map(|s| s.len()).unwrap_or(0));
                o["disp"] = jb(m.to_string().as_bytes());
                o["eq"] = json!(ServerMsg::parse(wr).map(|n| n == m).unwrap_or(false));
                o
            }
            Err(e) => jerr(&e),
        }
    } else {
        match ClientMsg::parse(line) {
            Ok(m) => {
                let mut o = jclient(&m);
                let mut wr = Vec::new();
                ClientCodec::write_to(&m, &mut wr).unwrap();
                o["wr"] = jb(&wr);
                o["left"] = json!(m.bytes_left(None));
                o["lenb"] = json!(m.args.len_bytes());
                o["nargs"] = json!(m.args.len());
                o["slen"] = json!(0);
                o["disp"] = jb(m.to_string().as_bytes());
                o["eq"] = json!(ClientMsg::parse(wr).map(|n| n == m).unwrap_or(false));
                o
            }
            Err(e) => jerr(&e),
        }
    };
    // Owned input must parse like borrowed input, also once the buffer is reused.
    let mut other = readbacks(side, line, false);
    other.as_array_mut().unwrap().push(outlived(side, line, false));
    let other = dedup(other.as_array().unwrap().clone());
    out["same"] = json!(other.as_array().unwrap().len() == 1);
    out
}

struct ChunkWriter {
    out: Vec<u8>,
    max: usize,
    pend: bool,
}
impl std::io::Write for ChunkWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.max);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl tokio::io::AsyncWrite for ChunkWriter {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, b: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        self.pend = !self.pend;
        if self.pend {
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        std::task::Poll::Ready(std::io::Write::write(&mut *self, b))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}
fn cw() -> ChunkWriter {
    ChunkWriter { out: Vec::new(), max: 3, pend: false }
}

fn build_args(how: usize, args: &[Vec<u8>], long: bool) -> Args<'static> {
    let (words, last) = if long { (&args[..args.len() - 1], args.last()) } else { (args, None) };
    let words: Vec<Arg<'static>> = words.iter().map(|w| Arg::from_bytes(w.clone()).unwrap()).collect();
    let last = last.map(|l| Line::from_bytes(l.clone()).unwrap());
    match how % 4 {
        0 => Args::new(words, last),
        1 => {
            let mut a = Args::empty();
            let mut e = a.edit();
            // long first: add_word must insert before it
            if let Some(l) = last {
                e.add(l);
            }
            for w in words {
                e.add_word(w);
            }
            a
        }
        2 => {
            let mut a = Args::empty();
            let mut e = a.edit();
            for w in words {
                e.add(w);
            }
            if let Some(l) = last {
                e.add(l);
            }
            a
        }
        _ => {
            let mut a = Args::empty();
            if last.is_none() && !words.is_empty() {
                let mut words = words;
                let l = words.pop().unwrap();
                a.set(words, Some(l.into()));
            } else {
                a.set(words, last);
            }
            a
        }
    }
}

fn mk_source(v: &Value) -> Option<Source<'static>> {
    let a = v.as_array().unwrap();
    if a.is_empty() {
        return None;
    }
    let nick = Nick::from_bytes(bj(&a[0])).unwrap();
    if a.len() == 1 {
        return Some(Source::new_server(nick));
    }
    let host = Word::from_bytes(bj(&a[2])).unwrap();
    let u = a[1].as_array().unwrap();
    if u.is_empty() {
        Some(Source { nick, userhost: Some(UserHost { user: None, host }) })
    } else {
        Some(Source::new_user(nick, User::from_bytes(bj(&u[0])).unwrap(), host))
    }
}

fn build_case(c: &Value) -> Value {
    let side = c["side"].as_str().unwrap();
    let how = us(&c["how"]);
    let mut tags = Tags::new();
    if how & 16 == 0 {
        let mut e = tags.edit();
        for p in c["tags"].as_array().unwrap() {
            let k = Key::from_bytes(bj(&p[0])).unwrap();
            let v = bj(&p[1]);
            if v.is_empty() {
                e.insert_key(k);
            } else {
                e.insert_pair(k, NoNul::from_bytes(v).unwrap());
            }
        }
    } else {
        tags = c["tags"].as_array().unwrap().iter()
            .map(|p| (Key::from_bytes(bj(&p[0])).unwrap(), NoNul::from_bytes(bj(&p[1])).unwrap())).collect();
    }
    let args: Vec<Vec<u8>> = c["args"].as_array().unwrap().iter().map(bj).collect();
    let args = build_args(how, &args, c["long"].as_bool().unwrap());
    let kind = bj(&c["kind"]);
    let mut wrs = Vec::new();
    let mut buf = Vec::new();
    let mut w = Vec::new();
    let eq;
    if side == "server" {
        let mut m = if let Some(n) = Numeric::from_bytes(&kind) {
            let mut m = ServerMsg::new_num(n, SharedSource::new(Source::new_server(Nick::from_str("x"))), Nick::from_str("t"));
            assert_eq!(m.to_string(), format!(":x {n} t"), "a numeric reply is to its target");
            m.source = None;
            m.args.clear();
            m
        } else {
            ServerMsg::new_cmd(Cmd::from_bytes(kind.clone()).unwrap())
        };
        m.tags = tags;
        if how & 32 == 0 {
            m.args = args;
        } else {
            let (w, l) = if args.is_last_long() { args.split_last() } else { (args.words(), None) };
            m = m.with_args(w.to_vec(), l.cloned());
        }
        m.source = mk_source(&c["src"]).map(|s| SharedSource::new(if how & 8 == 0 { s } else { s.owning_merged() }));
        ServerCodec::write_to(&m, &mut w).unwrap();
        w.extend_from_slice(b"\r\n");
        wrs.push(w.clone());
        let mut cwr = cw();
        ServerCodec::send_to(&m, &mut cwr, &mut buf).unwrap();
        wrs.push(cwr.out);
        assert!(buf.is_empty());
        let mut cwr = cw();
        block_on(ServerCodec::send_to_tokio(&m, &mut cwr, &mut buf)).unwrap();
        wrs.push(cwr.out);
        assert!(buf.is_empty());
        let mut bm = BytesMut::new();
        ServerCodec.encode(m.clone(), &mut bm).unwrap();
        wrs.push(bm.to_vec());
        let own = m.clone().owning();
        eq = own == m && ServerMsg::parse(w[..w.len() - 2].to_vec()).map(|x| x == m).unwrap_or(false);
    } else {
        let mut m = ClientMsg::new_cmd(Cmd::from_bytes(kind.clone()).unwrap());
        m.tags = tags;
        if how & 32 == 0 {
            m.args = args;
        } else {
            let (w, l) = if args.is_last_long() { args.split_last() } else { (args.words(), None) };
            m = m.with_args(w.to_vec(), l.cloned());
        }
        ClientCodec::write_to(&m, &mut w).unwrap();
        w.extend_from_slice(b"\r\n");
        wrs.push(w.clone());
        let mut cwr = cw();
        ClientCodec::send_to(&m, &mut cwr, &mut buf).unwrap();
        wrs.push(cwr.out);
        assert!(buf.is_empty());
        let mut cwr = cw();
        block_on(ClientCodec::send_to_tokio(&m, &mut cwr, &mut buf)).unwrap();
        wrs.push(cwr.out);
        assert!(buf.is_empty());
        let mut bm = BytesMut::new();
        ClientCodec.encode(m.clone(), &mut bm).unwrap();
        wrs.push(bm.to_vec());
        let own = m.clone().owning();
        eq = own == m && ClientMsg::parse(w[..w.len() - 2].to_vec()).map(|x| x == m).unwrap_or(false);
    }
    let mut rd = readbacks(side, &w[..w.len() - 2], true);
    for read in [false, true] {
        rd.as_array_mut().unwrap().push(outlived(side, &w[..w.len() - 2], read));
    }
    let rd = dedup(rd.as_array().unwrap().clone());
    json!({"wr": dedup(wrs.iter().map(|w| jb(w)).collect()), "rd": rd, "eq": eq})
}

const LITS: &[&str] = &["LIT", "two words", "", ":x", "END"];
fn args_case(c: &Value) -> Value {
    let mut a: Args<'static> = Args::empty();
    let mut st = Vec::new();
    for op in c["ops"].as_array().unwrap() {
        let s = bj(&op["s"]);
        let k = op["k"].as_str().unwrap();
        let mut ret = json!([]);
        let left;
        {
            let mut e = a.edit();
            match k {
                "word" => e.add_word(Arg::from_bytes(s).unwrap()),
                "before" => e.add_before_last(Arg::from_bytes(s).unwrap()),
                "add" => ret = opt(e.add(Line::from_bytes(s).unwrap()).map(|l| jb(l.as_bytes()))),
                "clear" => e.clear(),
                "lit" => e.add_literal(LITS.iter().find(|l| l.as_bytes() == s).unwrap()),
                // in place: every word; the last of all of them; all but the last argument
                "setw" => {
                    let n = e.words().len();
                    ret = json!([n]);
                    for w in e.words() {
                        *w = Arg::from_bytes(s.clone()).unwrap();
                    }
                }
                "setall" => {
                    if let Some(l) = e.all().and_then(|a| a.last_mut()) {
                        *l = Arg::from_bytes(s).unwrap();
                    }
                }
                "setinit" => {
                    let (init, last) = e.split_last();
                    ret = opt(last.map(|l| jb(l.as_bytes())));
                    for w in init {
                        *w = Arg::from_bytes(s.clone()).unwrap();
                    }
                }
                "drop" => (),
                _ => unreachable!(),
            }
            left = e.args_left();
        }
        if k == "drop" {
            a.clear();
        }
        let left = if k == "drop" { a.edit().args_left() } else { left };
        let (args, long) = jargs(&a);
        let (aa, _) = jargs(&a.clone().owning());
        st.push(json!({"args": args, "long": long, "ret": ret, "left": left, "lenb": a.len_bytes(), "n": a.len(),
            "all": a.all().is_some(), "words": a.words().len(), "emp": a.is_empty(), "disp": jb(a.to_string().as_bytes()), "own": aa == args}));
    }
    Value::Array(st)
}

fn run_case(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "parse" => parse_case(c["side"].as_str().unwrap(), &bj(&c["in"])),
        "build" => build_case(c),
        "args" => args_case(c),
        "pargs" => {
            let a = Args::parse(Line::from_bytes(bj(&c["in"])).unwrap());
            let (args, long) = jargs(&a);
            let mut b = bj(&c["in"]);
            let o = Args::parse(Line::from_bytes(b.as_slice()).unwrap()).owning();
            b.fill(b'#');
            json!({"args": args, "long": long, "lenb": a.len_bytes(), "own": o == a})
        }
        "ptags" => {
            let t = Tags::parse(Word::from_bytes(bj(&c["in"])).unwrap());
            let mut wr = Vec::new();
            t.write_to(&mut wr).unwrap();
            let mut b = bj(&c["in"]);
            let o = Tags::parse(Word::from_bytes(b.as_slice()).unwrap()).owning();
            b.fill(b'#');
            json!({"tags": jtags(&t), "wr": jb(&wr), "n": t.len(), "own": jtags(&o) == jtags(&t) && o == t})
        }
        "psrc" => match Source::parse(Word::from_bytes(bj(&c["in"])).unwrap()) {
            Ok(s) => {
                let mut wr = Vec::new();
                s.write_to(&mut wr).unwrap();
                // copies of a source whose buffer is overwritten, shared or not
                let mut bufs = vec![bj(&c["in"]); 6];
                let mut copies = vec![];
                for (i, b) in bufs.iter_mut().enumerate() {
                    let s = Source::parse(Word::from_bytes(b.as_slice()).unwrap()).unwrap();
                    let copy = match i {
                        0 => s.owning(),
                        1 => s.owning_merged(),
                        2 => SharedSource::new(s).owning(),
                        3 => SharedSource::new(s).owning_merged(),
                        4 => {
                            let s = SharedSource::new(s);
                            let t = s.clone();
                            let _ = (s == t).then_some(()).expect("clone differs");
                            let u = s.owning();
                            assert_eq!(jsrc(&t), jsrc(&u));
                            u
                        }
                        _ => {
                            let s = SharedSource::new(s);
                            let t = s.clone();
                            let u = s.owning_merged();
                            assert_eq!(jsrc(&t), jsrc(&u));
                            u
                        }
                    };
                    b.fill(b'#');
                    copies.push(jsrc(&copy));
                }
                let (len, disp) = (s.len(), jb(s.to_string().as_bytes()));
                assert_eq!(s.len_nonzero().get(), len);
                let uh = s.userhost.as_ref().map(|u| {
                    let mut w = vec![];
                    u.write_to(&mut w).unwrap();
                    json!({"wr": jb(&w), "len": u.len(), "ident": u.has_ident(), "disp": jb(u.to_string().as_bytes())})
                });
                json!({"ok": true, "v": jsrc(&s), "wr": jb(&wr), "len": len, "copies": dedup(copies), "disp": disp,
                    "user": opt(s.user().map(|u| jb(u.as_bytes()))), "host": opt(s.host().map(|u| jb(u.as_bytes()))), "uh": opt(uh)})
            }
            Err(e) => jerr(&e),
        },
        "puh" => match UserHost::parse(Word::from_bytes(bj(&c["in"])).unwrap()) {
            Ok(u) => {
                let mut b = bj(&c["in"]);
                let o = UserHost::parse(Word::from_bytes(b.as_slice()).unwrap()).unwrap().owning();
                b.fill(b'#');
                json!({"ok": true, "user": opt(u.user.as_ref().map(|u| jb(u.as_bytes()))), "host": jb(u.host.as_bytes()), "own": o == u})
            }
            Err(e) => jerr(&e),
        },
        "ctcp" => {
            let m = MaybeCtcp::parse(Line::from_bytes(bj(&c["in"])).unwrap());
            let len = m.len();
            json!({"cmd": jb(m.cmd.as_bytes()), "body": jb(m.body.as_bytes()), "is": m.is_ctcp(), "len": len, "line": jb(m.into_line().as_bytes())})
        }
        "esc" => {
            let v = NoNul::from_bytes(bj(&c["in"])).unwrap();
            let e = tf::escape(v.clone());
            let u = tf::unescape(v);
            json!({"esc": jb(e.as_bytes()), "unesc": jb(u.as_bytes())})
        }
        "num" => {
            let b = bj(&c["in"]);
            match Numeric::from_bytes(&b) {
                Some(n) => json!([{"int": n.into_int(), "s": jb(n.as_str().as_bytes()), "rt": Numeric::from_int(n.into_int()) == Some(n)}]),
                None => json!([]),
            }
        }
        x => panic!("harness: unknown op {x}"),
    }
}

const TOKS: &[&[u8]] = &[
    b"@", b":", b" ", b";", b"=", b"a", b"B", b"7", b"\\", b"\t", b"!", b",", b"%", b"\xff", b"\xc3\xa9", b"+", b"\x01", b"~", b"123", b"ping",
    b"PRIVMSG", b"\\s", b"\\:", b"\\\\", b"#c", b"  ", b" :", b"n!u@h", b"@k=v ", b":s ", b"\r", b"\n", b"\0", b"\x0c", b"\x0b", b"-", b"*",
];
const CRIT: &[&[u8]] = &[b"@", b":", b" ", b";", b"=", b"a", b"!", b"\\", b"7", b"\t", b"s"];
const VALB: &[u8] = b"aA0;\\ :=\r\nrns,\xff\xc3\xa9\t\x01@!%";

pub fn random_line(r: &mut Rng, toks: usize) -> Vec<u8> {
    let mut v = Vec::new();
    if r.chance(1, 3) {
        v.extend_from_slice(b"@");
        for i in 0..r.below(4) {
            if i > 0 {
                v.push(b';');
            }
            v.extend(r.bytes(b"abk+=:;\\", 4));
            if r.chance(1, 2) {
                v.push(b'=');
                v.extend(r.bytes(b"ab\\s:rn=\\\xff\t", 8));
            }
        }
        v.push(b' ');
    }
    if r.chance(1, 3) {
        v.push(b':');
        v.extend(r.bytes(b"nick!@,%u:", 9));
        v.push(b' ');
    }
    if r.chance(1, 2) {
        v.extend_from_slice(*r.pick(&[b"PING".as_slice(), b"001", b"privMSG", b"12", b"1234", b"A1", b"CAP"]));
        v.push(b' ');
    }
    for _ in 0..r.below(toks) {
        v.extend_from_slice(r.pick(TOKS));
    }
    v
}

fn gen_line_field(r: &mut Rng, ty: &str, max: usize) -> Vec<u8> {
    loop {
        let base: &[u8] = if r.chance(1, 3) { b"ab: \t=;,!@%~\xff\xc3\xa9\x01\\" } else { b"abcXYZ09-_#" };
        let v = r.bytes(base, max);
        let ok = match ty {
            "Arg" => Arg::from_bytes(v.clone()).is_ok(),
            "Key" => Key::from_bytes(v.clone()).is_ok(),
            "Nick" => Nick::from_bytes(v.clone()).is_ok(),
            "User" => User::from_bytes(v.clone()).is_ok(),
            "Host" => !v.is_empty() && Word::from_bytes(v.clone()).is_ok(),
            "Line" => Line::from_bytes(v.clone()).is_ok(),
            "Long" => Line::from_bytes(v.clone()).is_ok() && Arg::from_bytes(v.clone()).is_err(),
            _ => true,
        };
        if ok {
            return v;
        }
    }
}

pub fn gen_build(r: &mut Rng, big: bool) -> Value {
    let side = if r.chance(1, 2) { "server" } else { "client" };
    let mut tags = Vec::new();
    let mut keys: Vec<Vec<u8>> = Vec::new();
    for _ in 0..(if r.chance(1, 2) { r.below(5) } else { 0 }) {
        let k = gen_line_field(r, "Key", 4);
        if keys.contains(&k) {
            continue;
        }
        keys.push(k.clone());
        let vlen = if big { 700 } else { 6 };
        let v = r.bytes(VALB, vlen);
        tags.push(json!([jb(&k), jb(&v)]));
    }
    let src = if side == "client" || r.chance(1, 3) {
        json!([])
    } else if r.chance(1, 3) {
        json!([jb(&gen_line_field(r, "Nick", 6))])
    } else {
        let u = if r.chance(2, 3) { json!([jb(&gen_line_field(r, "User", if big { 300 } else { 6 }))]) } else { json!([]) };
        json!([jb(&gen_line_field(r, "Nick", if big { 300 } else { 6 })), u, jb(&gen_line_field(r, "Host", if big { 300 } else { 8 }))])
    };
    let kind: Vec<u8> = if side == "server" && r.chance(1, 2) {
        format!("{:03}", r.below(1000)).into_bytes()
    } else {
        let mut v = r.bytes(b"ABCXYZ", 6);
        v.push(b'Q');
        v
    };
    let mut args = Vec::new();
    let long = r.chance(1, 2);
    for _ in 0..r.below(4) {
        args.push(jb(&gen_line_field(r, "Arg", 6)));
    }
    if long {
        let l = if big { 400 } else { 8 };
        args.push(jb(&gen_line_field(r, "Long", l)));
    }
    json!({"op": "build", "side": side, "how": r.below(64), "tags": tags, "src": src, "kind": jb(&kind), "args": args, "long": long})
}

/// Sources with parts of up to several hundred bytes, some around powers of two.
fn long_source(r: &mut Rng) -> Vec<u8> {
    let part = |r: &mut Rng| {
        let n = if r.chance(1, 2) { 1 + r.below(600) } else { *r.pick(&[1usize, 127, 128, 129, 255, 256, 257, 511, 512]) };
        let mut v = vec![b'a'];
        while v.len() < n {
            v.push(b'a' + r.below(26) as u8);
        }
        v
    };
    let mut v = part(r);
    match r.below(3) {
        0 => (),
        1 => {
            v.push(b'@');
            v.extend(part(r));
        }
        _ => {
            v.push(b'!');
            v.extend(part(r));
            v.push(b'@');
            v.extend(part(r));
        }
    }
    v
}

fn gen_args(r: &mut Rng) -> Value {
    let n = 1 + r.below(7);
    let mut ops = Vec::new();
    for _ in 0..n {
        let k = *r.pick(&["word", "word", "before", "before", "add", "add", "add", "clear", "drop", "lit", "setw", "setall", "setinit"]);
        let s = match k {
            "add" => {
                if r.chance(1, 2) {
                    gen_line_field(r, "Long", 4)
                } else {
                    gen_line_field(r, "Line", 4)
                }
            }
            "clear" | "drop" => vec![],
            "lit" => LITS[r.below(LITS.len())].as_bytes().to_vec(),
            _ => gen_line_field(r, "Arg", 3),
        };
        ops.push(json!({"k": k, "s": jb(&s)}));
    }
    json!({"op": "args", "ops": ops})
}

fn enumerate(ctx: &mut Ctx, op: &str, side: Option<&str>, depth: usize, toks: &[&[u8]], ok: impl Fn(&[u8]) -> bool) {
    // all token strings of length <= depth
    let mut idx: Vec<usize> = vec![];
    loop {
        let line: Vec<u8> = idx.iter().flat_map(|i| toks[*i].iter().copied()).collect();
        if ok(&line) {
            let mut c = json!({"op": op, "in": jb(&line)});
            if let Some(s) = side {
                c["side"] = json!(s);
            }
            ctx.case(c.clone(), || run_case(&c));
        }
        // increment
        let mut i = 0;
        loop {
            if i == idx.len() {
                if idx.len() == depth {
                    return;
                }
                idx.push(0);
                break;
            }
            idx[i] += 1;
            if idx[i] < toks.len() {
                break;
            }
            idx[i] = 0;
            i += 1;
        }
    }
}

/// mode "parse": C03-style; mode "build": C01-style.
pub fn record(ctx: &mut Ctx, mode: &str) {
    if let Some(inp) = ctx.input.take() {
        for c in inp {
            let mut c = c;
            let exp = c.as_object_mut().unwrap().remove("exp");
            let mut c2 = c.clone();
            if let Some(e) = exp {
                c2["exp"] = e;
            }
            ctx.case(c2, || run_case(&c));
        }
        return;
    }
    let mut r = Rng::new(ctx.seed);
    let n = ctx.n;
    let deep = ctx.thorough;
    if mode == "parse" {
        let d = if deep { 4 } else { 3 };
        enumerate(ctx, "parse", Some("server"), d, CRIT, |_| true);
        enumerate(ctx, "parse", Some("client"), d - 1, CRIT, |_| true);
        enumerate(ctx, "psrc", None, d, &[b"a", b"!", b"@", b",", b":", b"%", b"\xff", b"~"], |l| Word::from_bytes(l).is_ok());
        enumerate(ctx, "puh", None, d, &[b"a", b"!", b"@", b",", b":", b"%", b"~"], |l| Word::from_bytes(l).is_ok());
        enumerate(ctx, "ptags", None, d + 1, &[b"a", b"b", b";", b"=", b":", b"\\", b"s"], |l| Word::from_bytes(l).is_ok());
        enumerate(ctx, "pargs", None, d + 1, &[b"a", b" ", b":", b"\t", b"b c"], |l| Line::from_bytes(l).is_ok());
        enumerate(ctx, "ctcp", None, d + 1, &[b"\x01", b"a", b" ", b"B:"], |_| true);
        enumerate(ctx, "num", None, 4, &[b"0", b"9", b"5", b"a", b"/", b":"], |_| true);
        for i in 0..n {
            let c = match i % 8 {
                0..=4 => json!({"op": "parse", "side": if r.chance(2,3) {"server"} else {"client"}, "in": jb(&random_line(&mut r, 9))}),
                5 => gen_args(&mut r),
                6 => {
                    let op = *r.pick(&["ptags", "psrc", "psrc", "puh"]);
                    let v = if op == "psrc" && r.chance(1, 4) { long_source(&mut r) } else { loop {
                        let v = if op == "ptags" { r.bytes(b"ab;==\\s:n;\xff\t", 14) } else { r.bytes(b"ni!@u%h,.:~\xff", 12) };
                        if Word::from_bytes(v.clone()).is_ok() { break v; }
                    } };
                    json!({"op": op, "in": jb(&v)})
                }
                _ => {
                    let op = *r.pick(&["pargs", "ctcp"]);
                    let mut v = r.bytes(b"ab  :\t\x01c\xff", 14);
                    if op == "ctcp" && r.chance(2, 3) { v.insert(0, 1); }
                    json!({"op": op, "in": jb(&v)})
                }
            };
            ctx.case(c.clone(), || run_case(&c));
        }
    } else {
        enumerate(ctx, "esc", None, if deep { 5 } else { 4 }, &[b"\\", b"s", b":", b";", b" ", b"\r", b"\n", b"n"], |_| true);
        for i in 0..n {
            let c = match i % 10 {
                0 => json!({"op": "esc", "in": jb(&r.bytes(VALB, 12))}),
                1 => gen_args(&mut r),
                _ => gen_build(&mut r, i % 37 == 5),
            };
            ctx.case(c.clone(), || run_case(&c));
        }
    }
}
