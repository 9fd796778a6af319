//! Framing driver: scripted transports for the sync, tokio and codec readers.
use crate::core::*;
use crate::msg::*;
use bytes::BytesMut;
use serde_json::{json, Value};
use std::io::{BufRead, Error, ErrorKind, Read};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio_util::codec::Decoder;
use vinezombie::ircmsg::*;

/// script: >0 = chunk of that many bytes, 0 = would-block, -1 = timed out, -2 = interrupted
pub struct Scripted {
    pub data: Vec<u8>,
    pub script: Vec<i64>,
    pub at: usize,
    pub pos: usize,
    pub avail: usize,
    pub idle: usize,
}
impl Scripted {
    pub fn new(data: &[u8], script: &[i64]) -> Self {
        Scripted { data: data.to_vec(), script: script.to_vec(), at: 0, pos: 0, avail: 0, idle: 0 }
    }
    fn step(&mut self) -> Result<(), ErrorKind> {
        if self.pos < self.avail {
            return Ok(());
        }
        if let Some(s) = self.script.get(self.at).copied() {
            self.at += 1;
            match s {
                0 => return Err(ErrorKind::WouldBlock),
                -1 => return Err(ErrorKind::TimedOut),
                -2 => return Err(ErrorKind::Interrupted),
                n => self.avail = (self.avail + n as usize).min(self.data.len()),
            }
        } else {
            self.avail = self.data.len();
        }
        Ok(())
    }
}
impl Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.step()?;
        let n = (self.avail - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Scripted {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.step()?;
        Ok(&self.data[self.pos..self.avail])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl tokio::io::AsyncRead for Scripted {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        match self.step() {
            Err(ErrorKind::TimedOut) => return Poll::Ready(Err(Error::from(ErrorKind::TimedOut))),
            Err(_) => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Ok(()) => {}
        }
        let n = (self.avail - self.pos).min(buf.remaining());
        let p = self.pos;
        buf.put_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncBufRead for Scripted {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let this = self.get_mut();
        match this.step() {
            Err(ErrorKind::TimedOut) => return Poll::Ready(Err(Error::from(ErrorKind::TimedOut))),
            Err(_) => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Ok(()) => {}
        }
        Poll::Ready(Ok(&this.data[this.pos..this.avail]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.pos += n;
    }
}

enum Next {
    Retry,
    Out(Value, bool), // value, terminal
}
fn outcome(r: Result<Value, Error>, buf: &mut Vec<u8>) -> Next {
    match r {
        Ok(v) => {
            buf.clear();
            Next::Out(v, false)
        }
        Err(e) => match e.kind() {
            ErrorKind::WouldBlock | ErrorKind::TimedOut => Next::Retry,
            ErrorKind::UnexpectedEof => Next::Out(json!({"ok": false, "err": "Eof"}), true),
            _ => {
                // as documented, other errors may leave the buffer invalid
                let over = buf.len() >= 4608;
                let term = over && !buf.ends_with(b"\n");
                let name = ioerr(&e);
                let term = (term && name == "InvalidLine") || name == "TooLong";
                buf.clear();
                Next::Out(json!({"ok": false, "err": name}), term)
            }
        },
    }
}

pub fn run_reader(kind: &str, side: &str, data: &[u8], script: &[i64], drop_seed: u64) -> Value {
    let mut out = Vec::new();
    let mut src = Scripted::new(data, script);
    let mut rng = Rng::new(drop_seed);
    let server = side == "server";
    let mut steps = 0usize;
    if kind == "codec" {
        let mut b = BytesMut::new();
        let mut tail = false;
        loop {
            steps += 1;
            assert!(steps < 100_000, "reader does not make progress");
            let r = if server {
                let r = if tail { ClientCodec.decode_eof(&mut b) } else { ClientCodec.decode(&mut b) };
                r.map(|m| m.map(|m| jserver(&m)))
            } else {
                let r = if tail { ServerCodec.decode_eof(&mut b) } else { ServerCodec.decode(&mut b) };
                r.map(|m| m.map(|m| jclient(&m)))
            };
            match r {
                Ok(Some(v)) => out.push(v),
                Ok(None) if tail => {
                    out.push(json!({"ok": false, "err": "Done"}));
                    break;
                }
                Ok(None) => {
                    // what does not belong to any message is not kept
                    assert!(b.len() < 8704, "{} bytes held back", b.len());
                    let mut chunk = vec![0; 9000];
                    match src.read(&mut chunk) {
                        Ok(0) => tail = true,
                        Ok(n) => b.extend_from_slice(&chunk[..n]),
                        Err(_) => {}
                    }
                }
                Err(e) => {
                    let mut name = ioerr(&e);
                    if tail && name == "Other" {
                        name = "Eof".into();
                    }
                    let term = name == "TooLong" || name == "Eof";
                    out.push(json!({"ok": false, "err": name}));
                    if term {
                        break;
                    }
                }
            }
        }
        return Value::Array(out);
    }
    let mut buf = Vec::new();
    loop {
        steps += 1;
        assert!(steps < 100_000, "reader does not make progress");
        let r = match (kind, server) {
            ("own", true) => ClientCodec::read_owning_from(&mut src, &mut buf).map(|m| jserver(&m)),
            ("own", false) => ServerCodec::read_owning_from(&mut src, &mut buf).map(|m| jclient(&m)),
            ("bor", true) => ClientCodec::read_borrowing_from(&mut src, &mut buf).map(|m| jserver(&m)),
            ("bor", false) => ServerCodec::read_borrowing_from(&mut src, &mut buf).map(|m| jclient(&m)),
            _ => {
                let fut: Pin<Box<dyn std::future::Future<Output = Result<Value, Error>> + '_>> = match (kind, server) {
                    ("town", true) => Box::pin(async { ClientCodec::read_owning_from_tokio(&mut src, &mut buf).await.map(|m| jserver(&m)) }),
                    ("town", false) => Box::pin(async { ServerCodec::read_owning_from_tokio(&mut src, &mut buf).await.map(|m| jclient(&m)) }),
                    ("tbor", true) => Box::pin(async { ClientCodec::read_borrowing_from_tokio(&mut src, &mut buf).await.map(|m| jserver(&m)) }),
                    ("tbor", false) => Box::pin(async { ServerCodec::read_borrowing_from_tokio(&mut src, &mut buf).await.map(|m| jclient(&m)) }),
                    _ => panic!("harness: kind {kind}"),
                };
                let mut fut = fut;
                let waker = std::task::Waker::noop();
                let mut cx = Context::from_waker(waker);
                let mut polls = 0;
                let r = loop {
                    polls += 1;
                    assert!(polls < 100_000, "future does not make progress");
                    match fut.as_mut().poll(&mut cx) {
                        Poll::Ready(r) => break r,
                        // a timeout elsewhere cancels the read
                        Poll::Pending if rng.chance(1, 2) => break Err(Error::from(ErrorKind::WouldBlock)),
                        Poll::Pending => {}
                    }
                };
                drop(fut);
                r
            }
        };
        match outcome(r, &mut buf) {
            Next::Retry => {}
            Next::Out(v, term) => {
                let eof = v["err"] == json!("Eof");
                out.push(v);
                if eof || term {
                    break;
                }
            }
        }
    }
    Value::Array(out)
}

fn run_case(c: &Value) -> Value {
    let data = bj(&c["stream"]);
    let script: Vec<i64> = c["script"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let side = c["side"].as_str().unwrap();
    let seed = data.len() as u64 * 31 + script.len() as u64;
    Value::Array(c["kinds"].as_array().unwrap().iter().map(|k| run_reader(k.as_str().unwrap(), side, &data, &script, seed)).collect())
}

pub fn record(ctx: &mut Ctx) {
    if let Some(inp) = ctx.input.take() {
        for c in inp {
            ctx.case(c.clone(), || run_case(&c));
        }
        return;
    }
    let mut r = Rng::new(ctx.seed ^ 0xf7a);
    for i in 0..ctx.n {
        let side = if r.chance(1, 2) { "server" } else { "client" };
        let limit = if side == "server" { 8703usize } else { 4608 };
        let mut data = Vec::new();
        if i % 50 == 11 {
            for _ in 0..8000 + r.below(12000) {
                data.push(*r.pick(b"  \t"));
            }
        }
        let big = i % 25 == 7;
        let nl = r.below(5);
        for k in 0..nl {
            if big && k == nl / 2 {
                let total = limit - 4 + r.below(8);
                let term: &[u8] = *r.pick(&[b"\r\n".as_slice(), b"\n", b"\r\r\n"]);
                let mut l = b"PING ".to_vec();
                while l.len() + term.len() < total {
                    l.push(if r.chance(1, 1500) { b' ' } else { b'x' });
                }
                // byte at the limit matters
                if r.chance(1, 6) && l.len() > limit {
                    l[limit - 1] = *r.pick(b"\r\0x");
                }
                data.extend(l);
                data.extend_from_slice(term);
                continue;
            }
            match r.below(10) {
                0 => {}
                1 => data.extend_from_slice(*r.pick(&[b" ".as_slice(), b"  \t", b"\r", b"\0", b"a\0b", b"A\rB"])),
                2 | 3 => data.extend(random_line(&mut r, 6)),
                _ => {
                    let b = gen_build(&mut r, false);
                    // use the spec-independent writer indirectly: only well-formed pieces
                    if b["side"] == json!(side) && b["tags"].as_array().unwrap().is_empty() {
                        data.extend(bj(&b["kind"]));
                        for a in b["args"].as_array().unwrap() {
                            data.push(b' ');
                            data.extend(bj(a));
                        }
                    } else {
                        data.extend_from_slice(*r.pick(&[b"PING :x".as_slice(), b":s PRIVMSG a :b c", b"@a=b;c CAP * LS", b"001x", b"NOTICE"]));
                    }
                }
            }
            if k + 1 < nl || r.chance(4, 5) {
                data.extend_from_slice(*r.pick(&[b"\r\n".as_slice(), b"\n", b"\r\n", b"\r\n\r\n", b"\r\r\n", b"\n\n"]));
            }
        }
        let mut script = Vec::new();
        let style = r.below(4);
        let mut p = 0;
        while p < data.len() && script.len() < 400 {
            if r.chance(1, 3) {
                script.push(-(r.below(3) as i64));
            }
            let n = match style {
                0 => 1,
                1 => 1 + r.below(3),
                2 => 1 + r.below(40),
                _ => 1 + r.below(9000),
            };
            let n = if big { n.max(50) } else { n };
            script.push(n as i64);
            p += n;
        }
        if r.chance(1, 2) {
            script.push(-(r.below(2) as i64));
        }
        let c = json!({"stream": jb(&data), "script": script, "side": side, "kinds": ["own", "bor", "town", "tbor", "codec"]});
        ctx.case(c.clone(), || run_case(&c));
    }
}
