//! Client driver: whole-client histories over a scripted connection under virtual time.
//! Virtual time: the sync client's sleeps and the connection's blocking advance the clock;
//! for tokio the runtime's paused clock drives it.
use crate::core::*;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{BufRead, Error, ErrorKind, Read, Write};
use std::ops::ControlFlow;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use vinezombie::client::channel::*;
use vinezombie::client::conn::*;
use vinezombie::client::queue::*;
use vinezombie::client::state::ClientStateKey;
use vinezombie::client::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

#[derive(Default)]
struct Marker;
impl ClientStateKey for Marker {
    type Value = i64;
}

// ------------------------------------------------------------------ scripted connection
#[derive(Default)]
struct Shared {
    written: Vec<u8>,
    stall: i64,
    part: usize,
    flushes: usize,
}
pub struct SConn {
    tag: usize,
    chunks: VecDeque<(i64, Vec<u8>)>,
    eof: i64,
    cur: Vec<u8>,
    pos: usize,
    rt: Option<Duration>,
    wt: Option<Duration>,
    sh: Arc<Mutex<Shared>>,
    wouldblock: bool,
    maxw: usize,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    wsleep: Option<Pin<Box<tokio::time::Sleep>>>,
}
fn now_ms() -> i64 {
    (VNOW.load(std::sync::atomic::Ordering::Relaxed) - V0.load(std::sync::atomic::Ordering::Relaxed)) / 1_000_000
}
fn set_now_ms(ms: i64) {
    VNOW.store(V0.load(std::sync::atomic::Ordering::Relaxed) + ms * 1_000_000, std::sync::atomic::Ordering::Relaxed);
}
static V0: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

fn chunk_bytes(c: &Value) -> Vec<u8> {
    let mut s = format!("DO {}", c["id"]);
    for a in c["acts"].as_array().unwrap() {
        s += &format!(" {}:{}:{}:{}", a[0], a[1], a[2], a[3]);
    }
    s += if c["end"].as_bool().unwrap() { "\r\n" } else { " " };
    s.into_bytes()
}
impl SConn {
    fn new(c: &Value, sh: Arc<Mutex<Shared>>, r: &mut Rng) -> SConn {
        let mut chunks: VecDeque<(i64, Vec<u8>)> = VecDeque::new();
        for ch in c["chunks"].as_array().unwrap() {
            let t = ch["t"].as_i64().unwrap();
            let b = chunk_bytes(ch);
            match chunks.back_mut() {
                Some(l) if l.0 == t && r.chance(1, 2) => l.1.extend_from_slice(&b),
                _ => {
                    // cut inside words: several reads at the same instant
                    let k = r.below(b.len() + 1);
                    if k > 0 && k < b.len() && r.chance(1, 2) {
                        chunks.push_back((t, b[..k].to_vec()));
                        chunks.push_back((t, b[k..].to_vec()));
                    } else {
                        chunks.push_back((t, b));
                    }
                }
            }
        }
        SConn {
            tag: 0,
            chunks,
            eof: c["eof"].as_i64().unwrap(),
            cur: vec![],
            pos: 0,
            rt: None,
            wt: None,
            sh,
            wouldblock: r.chance(1, 2),
            maxw: 1 + r.below(600),
            sleep: None,
            wsleep: None,
        }
    }
    fn timed_out(&self) -> Error {
        Error::from(if self.wouldblock { ErrorKind::WouldBlock } else { ErrorKind::TimedOut })
    }
    /// time of the next event, or None if nothing will ever come
    fn next_at(&self) -> Option<i64> {
        self.chunks.front().map(|c| c.0).or(if self.eof >= 0 { Some(self.eof) } else { None })
    }
}
impl ReadTimeout for SConn {
    fn set_read_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        if t == Some(Duration::ZERO) {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.rt = t;
        Ok(())
    }
}
impl WriteTimeout for SConn {
    fn set_write_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        if t == Some(Duration::ZERO) {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.wt = t;
        Ok(())
    }
}
impl BufRead for SConn {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.pos >= self.cur.len() {
            let dl = self.rt.map(|d| now_ms() + d.as_millis() as i64);
            let at = self.next_at();
            match (at, dl) {
                (None, None) => return Err(Error::new(ErrorKind::Other, "stall")),
                (Some(t), Some(d)) if t > d => {
                    set_now_ms(d);
                    return Err(self.timed_out());
                }
                (None, Some(d)) => {
                    set_now_ms(d);
                    return Err(self.timed_out());
                }
                (Some(t), _) => {
                    if t > now_ms() {
                        set_now_ms(t);
                    }
                    match self.chunks.pop_front() {
                        Some(c) => {
                            self.cur = c.1;
                            self.pos = 0;
                        }
                        None => return Ok(&[]),
                    }
                }
            }
        }
        Ok(&self.cur[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Read for SConn {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl Write for SConn {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut sh = self.sh.lock().unwrap();
        if sh.stall > 0 && sh.part > 0 {
            let n = std::mem::take(&mut sh.part).min(buf.len());
            sh.written.extend_from_slice(&buf[..n]);
            return Ok(n);
        }
        let stall = std::mem::take(&mut sh.stall);
        if stall > 0 {
            if let Some(w) = self.wt {
                if (w.as_millis() as i64) < stall {
                    advance_ms(w.as_millis() as i64);
                    drop(sh);
                    return Err(self.timed_out());
                }
            }
            advance_ms(stall);
        }
        let n = buf.len().min(self.maxw);
        sh.written.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut sh = self.sh.lock().unwrap();
        sh.flushes = sh.written.len();
        Ok(())
    }
}
impl Connection for SConn {
    type BufRead = Self;
    type Write = Self;
    fn as_bufread(&mut self) -> &mut Self {
        self
    }
    fn as_write(&mut self) -> &mut Self {
        self
    }
}
impl tokio::io::AsyncRead for SConn {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        panic!("harness: unbuffered read")
    }
}
fn poll_sleep(slot: &mut Option<Pin<Box<tokio::time::Sleep>>>, ms: i64, cx: &mut Context<'_>) -> Poll<()> {
    use std::future::Future;
    let s = slot.get_or_insert_with(|| Box::pin(tokio::time::sleep(Duration::from_millis(ms.max(0) as u64))));
    match s.as_mut().poll(cx) {
        Poll::Ready(()) => {
            *slot = None;
            Poll::Ready(())
        }
        Poll::Pending => Poll::Pending,
    }
}
impl tokio::io::AsyncBufRead for SConn {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.pos >= this.cur.len() {
            let Some(t) = this.next_at() else { return Poll::Pending };
            if t > now_ms() {
                // always register afresh: the previous waker may be gone
                this.sleep = None;
                if poll_sleep(&mut this.sleep, t - now_ms(), cx).is_pending() {
                    return Poll::Pending;
                }
            }
            match this.chunks.pop_front() {
                Some(c) => {
                    this.cur = c.1;
                    this.pos = 0;
                }
                None => return Poll::Ready(Ok(&[])),
            }
        }
        Poll::Ready(Ok(&this.cur[this.pos..]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.pos += n;
    }
}
impl tokio::io::AsyncWrite for SConn {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let this = self.get_mut();
        let stall = this.sh.lock().unwrap().stall;
        if stall > 0 {
            // a bit of the first line may get through first
            let mut sh = this.sh.lock().unwrap();
            if sh.part > 0 {
                let n = std::mem::take(&mut sh.part).min(buf.len());
                sh.written.extend_from_slice(&buf[..n]);
                return Poll::Ready(Ok(n));
            }
            drop(sh);
            if poll_sleep(&mut this.wsleep, stall, cx).is_pending() {
                return Poll::Pending;
            }
            this.sh.lock().unwrap().stall = 0;
        }
        let n = buf.len().min(this.maxw);
        this.sh.lock().unwrap().written.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut sh = self.sh.lock().unwrap();
        sh.flushes = sh.written.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl ConnectionTokio for SConn {
    type AsyncBufRead = Self;
    type AsyncWrite = Self;
    fn as_bufread(&mut self) -> Pin<&mut Self> {
        Pin::new(self)
    }
    fn as_write(&mut self) -> &mut Self {
        self
    }
}

// ------------------------------------------------------------------ recording handlers
#[derive(Default)]
struct Rec {
    log: Vec<Value>,
    dropped: Vec<i64>,
    tf: usize,
    adj: Vec<Value>,
    resets: usize,
}
/// Looks at every server message; when the last id on the line is odd,
/// removes queued messages whose id is a multiple of three.
struct Adj(Arc<Mutex<Rec>>);
impl Adjuster for Adj {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        let ids: Vec<i64> = msg.args.words().iter().filter_map(|w| std::str::from_utf8(w.as_bytes()).ok()?.parse().ok()).collect();
        let yes = ids.last().unwrap() % 2 == 1;
        self.0.lock().unwrap().adj.push(json!(ids));
        yes
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        std::str::from_utf8(msg.args.words()[0].as_bytes()).unwrap().parse::<i64>().unwrap() % 3 != 0
    }
    fn reset(&mut self) {
        self.0.lock().unwrap().resets += 1;
    }
}
/// Refuses to make a handler.
struct Refuse;
impl MakeHandler<i64> for Refuse {
    type Value = i64;
    type Error = i64;
    type Receiver<Spec: ChannelSpec> = Spec::Queue<i64>;
    fn make_handler(self, _: &ClientState, _: QueueEditGuard<'_>, value: i64) -> Result<Box<dyn Handler<Value = i64>>, i64> {
        Err(value)
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = i64> + Send>, Self::Receiver<Spec>) {
        spec.new_queue()
    }
}
struct H {
    uid: i64,
    nq: i64,
    own: i64, // 0 never, 1 always, 2 alternating
    n: usize,
    rec: Arc<Mutex<Rec>>,
}
impl Drop for H {
    fn drop(&mut self) {
        self.rec.lock().unwrap().dropped.push(self.uid);
    }
}
fn qmsg(id: i64) -> ClientMsg<'static> {
    let mut m = ClientMsg::new_cmd(Cmd::from_str("M"));
    m.args.edit().add_word(Arg::from_bytes(id.to_string()).unwrap());
    m
}
impl Handler for H {
    type Value = i64;
    fn handle(&mut self, msg: &ServerMsg<'_>, _: &mut ClientState, mut queue: QueueEditGuard<'_>, mut ch: SenderRef<'_, i64>) -> ControlFlow<()> {
        self.n += 1;
        let mut ids = Vec::new();
        let mut fin = false;
        let mut k = 0;
        let words: Vec<String> = msg.args.words().iter().map(|w| String::from_utf8_lossy(w.as_bytes()).into_owned()).collect();
        for w in &words {
            if let Ok(n) = w.parse::<i64>() {
                ids.push(n);
            } else if w.contains(':') {
                let p: Vec<i64> = w.split(':').map(|x| x.parse().unwrap_or(-999)).collect();
                if p.len() != 4 || p[0] != self.uid {
                    continue;
                }
                for _ in 0..p[1] {
                    let _ = ch.send(ids[0]);
                }
                for _ in 0..p[3] {
                    queue.push(qmsg(self.uid * 10000 + ids[0] * 10 + k));
                    k += 1;
                }
                fin |= p[2] == 1;
            }
        }
        self.rec.lock().unwrap().log.push(json!([self.uid, ids]));
        if fin {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn wants_owning(&self) -> bool {
        match self.own {
            0 => false,
            1 => true,
            _ => self.n % 2 == 1,
        }
    }
}
impl SelfMadeHandler for H {
    type Receiver<Spec: ChannelSpec> = Spec::Queue<i64>;
    fn queue_msgs(&self, _: &ClientState, mut q: QueueEditGuard<'_>) {
        for k in 0..self.nq {
            q.push(qmsg(self.uid * 10000 + k));
        }
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = i64> + Send>, Self::Receiver<Spec>) {
        spec.new_queue()
    }
}

// ------------------------------------------------------------------ running a history
struct World {
    client: Option<Client<SConn, SyncChannels>>,
    sh: Arc<Mutex<Shared>>,
    rec: Arc<Mutex<Rec>>,
    recvs: Vec<(i64, Option<std::sync::mpsc::Receiver<i64>>)>,
    conns: Vec<Value>,
    nconn: usize,
    broken: bool,
    /// a line of which only a part was written, by a run that was abandoned
    tail: Vec<u8>,
    held: bool,
    rng: Rng,
}
fn dur(v: &Value) -> Option<Duration> {
    let n = v.as_i64().unwrap();
    if n < 0 {
        None
    } else {
        Some(Duration::from_millis(n as u64))
    }
}
/// The client, set up before its connection is handed to it.
fn start(conn: SConn, pre: &[Value]) -> Client<SConn, SyncChannels> {
    if pre.is_empty() {
        return Client::new(conn, SyncChannels);
    }
    let mut q = Queue::new();
    let mut st = ClientState::new();
    let mut l = ClientLogic::new();
    for op in pre {
        match op["k"].as_str().unwrap() {
            "push" => q.edit().push(qmsg(op["id"].as_i64().unwrap())),
            "qlim" => {
                q.set_rate_limit(Duration::from_millis(op["d"].as_u64().unwrap()), op["b"].as_u64().unwrap() as u32);
            }
            "mark" => st.insert::<Marker>(op["v"].as_i64().unwrap()),
            "setsl" => st.set_source_len(std::num::NonZeroUsize::new(op["n"].as_u64().unwrap() as usize).unwrap()),
            "rlim" => l = l.with_read_timeout(dur(&op["ms"]).unwrap()),
            "wlim" => l = l.with_write_timeout(dur(&op["ms"]).unwrap()),
            x => panic!("harness: pre {x}"),
        }
    }
    if pre.len() == 1 && pre[0]["k"] != "rlim" && pre[0]["k"] != "wlim" && pre[0]["k"] != "mark" && pre[0]["k"] != "setsl" {
        #[allow(deprecated)]
        return Client::new_with_queue(conn, SyncChannels, q);
    }
    let l = if pre.len() % 2 == 0 { l.with_queue(q).with_state(st) } else { l.with_state(st).with_queue(q) };
    Client::new_with_logic(conn, SyncChannels, l)
}
impl World {
    fn new(c: &Value) -> World {
        let mut rng = Rng::new(c["cut"].as_u64().unwrap_or(7));
        let sh = Arc::new(Mutex::new(Shared::default()));
        let conns = c["conns"].as_array().unwrap().clone();
        let mut conn = SConn::new(&conns[0], sh.clone(), &mut rng);
        conn.tag = 1;
        World {
            client: Some(start(conn, c["pre"].as_array().unwrap())),
            sh,
            rec: Default::default(),
            recvs: vec![],
            conns,
            nconn: 1,
            broken: false, tail: vec![], held: false,
            rng,
        }
    }
    fn next_conn(&mut self) -> SConn {
        let c = self.conns.get(self.nconn).cloned().unwrap_or(json!({"chunks": [], "eof": -1}));
        self.nconn += 1;
        self.sh = Arc::new(Mutex::new(Shared::default()));
        let mut c = SConn::new(&c, self.sh.clone(), &mut self.rng);
        c.tag = self.nconn;
        c
    }
    /// Everything but `run`.
    fn op(&mut self, op: &Value, o: &mut Value) {
        let c = self.client.as_mut().unwrap();
        match op["k"].as_str().unwrap() {
            "add" => {
                let h = H {
                    uid: op["uid"].as_i64().unwrap(),
                    nq: op["nq"].as_i64().unwrap(),
                    own: op["own"].as_i64().unwrap(),
                    n: 0,
                    rec: self.rec.clone(),
                };
                let uid = h.uid;
                let (id, r) = if uid % 2 == 0 {
                    c.add((), h).unwrap()
                } else if uid % 3 == 0 {
                    let (s, r) = <H as SelfMadeHandler>::make_channel(&SyncChannels);
                    (c.add_with_sender(s, (), h).unwrap(), r)
                } else {
                    c.add_with_spec(&SyncChannels, (), h).unwrap()
                };
                o["id"] = json!(id);
                self.recvs.push((uid, Some(r)));
            }
            "close" => {
                for r in &mut self.recvs {
                    if r.0 == op["uid"].as_i64().unwrap() {
                        r.1 = None;
                    }
                }
            }
            "push" => c.queue_mut().edit().push(qmsg(op["id"].as_i64().unwrap())),
            "rlim" => {
                c.set_read_timeout(dur(&op["ms"]));
            }
            "wlim" => {
                c.set_write_timeout(dur(&op["ms"]));
            }
            "qlim" => {
                c.queue_mut().set_rate_limit(Duration::from_millis(op["d"].as_u64().unwrap()), op["b"].as_u64().unwrap() as u32);
            }
            "tfn" => {
                let mut vs: VecDeque<bool> = op["vs"].as_array().unwrap().iter().map(|v| v.as_bool().unwrap()).collect();
                let push = op["push"].as_bool().unwrap();
                let rec = self.rec.clone();
                let mut n = 0;
                c.set_timeout_fn(Some(move |l: &mut ClientLogic| {
                    rec.lock().unwrap().tf += 1;
                    if push {
                        n += 1;
                        l.queue_mut().edit().push(qmsg(8_000_000 + n));
                    }
                    if vs.pop_front().unwrap_or(false) {
                        ControlFlow::Continue(())
                    } else {
                        ControlFlow::Break(())
                    }
                }));
            }
            "notfn" => c.set_timeout_fn(None::<fn(&mut ClientLogic) -> ControlFlow<()>>),
            "stall" => {
                let mut sh = self.sh.lock().unwrap();
                sh.stall = op["ms"].as_i64().unwrap();
                sh.part = op["part"].as_u64().unwrap_or(0) as usize;
            }
            "mark" => c.state_mut().insert::<Marker>(op["v"].as_i64().unwrap()),
            "setsl" => c.state_mut().set_source_len(std::num::NonZeroUsize::new(op["n"].as_u64().unwrap() as usize).unwrap()),
            "addfail" => o["fl"] = json!(c.add(Refuse, 77).map(|_| -1).unwrap_or_else(|v| v)),
            "adj" => {
                let a = Adj(self.rec.clone());
                c.queue_mut().use_adjuster(a);
            }
            "noadj" => {
                c.queue_mut().use_no_adjuster();
            }
            "withspec" => {
                let c = self.client.take().unwrap();
                self.client = Some(c.with_spec(SyncChannels));
            }
            "lab" => {
                c.queue_mut().use_labeler_default();
            }
            "reset" => {
                c.reset();
                self.tail.clear();
                self.held = false;
            }
            "newconn" => {
                let n = self.next_conn();
                self.broken = false;
                self.held = false;
                self.tail.clear();
                let want = n.tag - 1;
                let old = self.client.as_mut().unwrap().reset_with_conn(n);
                assert_eq!(old.tag, want, "the previous connection is handed back");
            }
            "withconn" => {
                let n = self.next_conn();
                let c = self.client.take().unwrap();
                self.client = Some(c.with_conn(n));
            }
            x => panic!("harness: op {x}"),
        }
    }
    fn result(&mut self, r: std::io::Result<Option<(&[usize], &[usize])>>, o: &mut Value) -> bool {
        match r {
            Ok(Some((y, f))) => {
                o["r"] = json!("ok");
                o["y"] = json!(y);
                o["f"] = json!(f);
                true
            }
            Ok(None) => {
                o["r"] = json!("none");
                true
            }
            Err(e) => {
                o["r"] = json!(match e.kind() {
                    ErrorKind::UnexpectedEof => "eof",
                    ErrorKind::TimedOut | ErrorKind::WouldBlock => "timeout",
                    ErrorKind::Other if e.to_string() == "stall" => "stall",
                    _ => "error",
                });
                false
            }
        }
    }
    /// What can be observed after any operation.
    fn observe(&mut self, o: &mut Value) {
        let c = self.client.as_ref().unwrap();
        o["now"] = json!(now_ms());
        o["nr"] = json!(c.needs_run());
        o["qn"] = json!(c.queue().len());
        o["lab"] = json!(c.queue().is_using_labeler());
        o["mark"] = opt(c.state().get::<Marker>().map(|v| json!(v)));
        o["sl"] = json!(c.state().source_len().get());
        let mut sh = self.sh.lock().unwrap();
        let new = std::mem::take(&mut sh.written);
        let cut = o["r"] == "cut";
        let mut ids = Vec::new();
        if sh.flushes < new.len() && !self.broken && !cut {
            ids.push(json!(-2)); // written but never flushed
        }
        sh.flushes = 0;
        self.tail.extend_from_slice(&new);
        let w = std::mem::take(&mut self.tail);
        let mut rest = &w[..];
        while !rest.is_empty() {
            let Some(p) = rest.windows(2).position(|x| x == b"\r\n") else {
                if cut || self.held {
                    // the rest of this line is still to come
                    self.tail = rest.to_vec();
                } else if !self.broken {
                    ids.push(json!(-1));
                }
                break;
            };
            let line = String::from_utf8_lossy(&rest[..p]).into_owned();
            ids.push(json!(line.strip_prefix("M ").and_then(|n| n.parse::<i64>().ok()).unwrap_or(-1)));
            rest = &rest[p + 2..];
        }
        o["w"] = json!(ids);
        let mut rec = self.rec.lock().unwrap();
        o["log"] = json!(std::mem::take(&mut rec.log));
        o["dropped"] = json!(std::mem::take(&mut rec.dropped));
        o["tf"] = json!(std::mem::take(&mut rec.tf));
        o["adj"] = json!(std::mem::take(&mut rec.adj));
        o["resets"] = json!(rec.resets);
        let mut rv = Vec::new();
        for (uid, r) in &self.recvs {
            if let Some(r) = r {
                while let Ok(v) = r.try_recv() {
                    rv.push(json!([uid, v]));
                }
            }
        }
        o["recv"] = json!(rv);
    }
}
fn blank() -> Value {
    json!({"r": "-", "y": [], "f": [], "id": -1, "fl": -8, "skip": false})
}
fn skipped() -> Value {
    let mut o = blank();
    o["skip"] = json!(true);
    o
}
fn run_sync(c: &Value) -> Value {
    let mut w = World::new(c);
    let mut outs = Vec::new();
    for op in c["ops"].as_array().unwrap() {
        let k = op["k"].as_str().unwrap();
        if w.broken && k != "newconn" {
            outs.push(skipped());
            continue;
        }
        let mut o = blank();
        match k {
            "adv" => advance_ms(op["ms"].as_i64().unwrap()),
            "run" => {
                let mut cl = w.client.take().unwrap();
                let r = cl.run();
                let good = w.result(r, &mut o);
                w.client = Some(cl);
                w.broken = !good;
            }
            "flush" => {
                let r = w.client.as_mut().unwrap().flush_partial();
                match r {
                    Ok(d) => o["fl"] = json!(d.map(|d| d.as_millis() as i64).unwrap_or(-1)),
                    Err(_) => {
                        o["fl"] = json!(-9);
                        w.broken = true
                    }
                }
            }
            _ => w.op(op, &mut o),
        }
        w.observe(&mut o);
        outs.push(o);
    }
    assert_eq!(w.client.unwrap().take_conn().tag, w.nconn, "the connection in use is handed back");
    Value::Array(outs)
}
/// Keeps the std clock equal to the runtime's paused clock.
struct Synced<F>(F, tokio::time::Instant);
impl<F: std::future::Future + Unpin> std::future::Future for Synced<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        set_now_ms((tokio::time::Instant::now() - self.1).as_millis() as i64);
        Pin::new(&mut self.0).poll(cx)
    }
}
const HORIZON: i64 = 10_000_000;
fn run_tokio(c: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let t0 = tokio::time::Instant::now();
        let mut w = World::new(c);
        let mut outs = Vec::new();
        for op in c["ops"].as_array().unwrap() {
            let k = op["k"].as_str().unwrap();
            if w.broken && k != "newconn" {
                outs.push(skipped());
                continue;
            }
            let mut o = blank();
            match k {
                "adv" => {
                    tokio::time::advance(Duration::from_millis(op["ms"].as_u64().unwrap())).await;
                    set_now_ms((tokio::time::Instant::now() - t0).as_millis() as i64);
                }
                "run" => {
                    let mut cl = w.client.take().unwrap();
                    let start = now_ms();
                    let stalled;
                    let until = op["until"].as_i64().unwrap_or(HORIZON);
                    w.held = false;
                    {
                        let fut = Synced(Box::pin(tokio::time::timeout(Duration::from_millis(until as u64), cl.run_tokio())), t0);
                        match fut.await {
                            Ok(r) => {
                                let good = w.result(r, &mut o);
                                w.broken = !good;
                                stalled = false;
                            }
                            Err(_) if until < HORIZON => {
                                // the run is abandoned, not over
                                o["r"] = json!("cut");
                                w.held = true;
                                stalled = false;
                            }
                            Err(_) => {
                                o["r"] = json!("stall");
                                w.broken = true;
                                stalled = true;
                            }
                        }
                    }
                    w.client = Some(cl);
                    if stalled {
                        assert_eq!(now_ms(), start + HORIZON);
                    }
                }
                "flush" => {
                    w.held = false;
                    let r = {
                        let cl = w.client.as_mut().unwrap();
                        Synced(Box::pin(cl.flush_partial_tokio()), t0).await
                    };
                    match r {
                        Ok(d) => o["fl"] = json!(d.map(|d| d.as_millis() as i64).unwrap_or(-1)),
                        Err(_) => {
                            o["fl"] = json!(-9);
                            w.broken = true
                        }
                    }
                }
                _ => w.op(op, &mut o),
            }
            w.observe(&mut o);
            outs.push(o);
        }
        Value::Array(outs)
    })
}
fn run_case(c: &Value) -> Value {
    vclock(true);
    // start each case on a round virtual instant
    let v = VNOW.load(std::sync::atomic::Ordering::Relaxed) + 100_000_000_000_000;
    VNOW.store(v - v % 1_000_000, std::sync::atomic::Ordering::Relaxed);
    V0.store(v - v % 1_000_000, std::sync::atomic::Ordering::Relaxed);
    VSLEEP.with(|x| x.set(true));
    let r = guarded(|| if c["mode"] == "tokio" { run_tokio(c) } else { run_sync(c) });
    VSLEEP.with(|x| x.set(false));
    vclock(false);
    match r {
        Ok(v) => v,
        Err(e) => panic!("{e}"),
    }
}

// ------------------------------------------------------------------ random histories
fn gen(r: &mut Rng, flavour: &str) -> Value {
    let mut uid = 0i64;
    let mut uids: Vec<i64> = vec![];
    let mut ops: Vec<Value> = vec![];
    let time = flavour == "time";
    let nconn = 1 + r.below(5);
    let mut pid = 9_000_000;
    if time || r.chance(1, 2) {
        if r.chance(2, 3) {
            ops.push(json!({"k": "rlim", "ms": *r.pick(&[-1i64, 200, 1000, 1500, 3700, 30000])}));
        }
        if r.chance(1, 2) {
            ops.push(json!({"k": "wlim", "ms": *r.pick(&[-1i64, 300, 1000, 2500])}));
        }
        if r.chance(1, 2) {
            ops.push(json!({"k": "qlim", "d": *r.pick(&[0, 1, 700, 1300, 2000]), "b": *r.pick(&[0, 1, 4])}));
        }
    }
    for _ in 0..r.below(4) {
        uid += 1;
        uids.push(uid);
        ops.push(json!({"k": "add", "uid": uid, "nq": r.below(3), "own": r.below(3)}));
    }
    let mut pre = vec![];
    if r.chance(1, 4) {
        for _ in 0..1 + r.below(4) {
            pre.push(match r.below(6) {
                0 => json!({"k": "rlim", "ms": *r.pick(&[200i64, 1500, 3700])}),
                1 => json!({"k": "wlim", "ms": *r.pick(&[300i64, 1000, 2500])}),
                2 => json!({"k": "qlim", "d": *r.pick(&[0, 1, 700, 2000]), "b": *r.pick(&[0, 1, 4])}),
                3 => json!({"k": "mark", "v": r.below(9)}),
                4 => json!({"k": "setsl", "n": 1 + r.below(200)}),
                _ => {
                    pid += 1;
                    json!({"k": "push", "id": pid})
                }
            });
        }
    }
    if r.chance(1, 3) {
        ops.push(json!({"k": "adj"}));
    }
    let n = 5 + r.below(20);
    for _ in 0..n {
        let x = r.below(100);
        let op = match x {
            0..=14 => {
                uid += 1;
                uids.push(uid);
                json!({"k": "add", "uid": uid, "nq": r.below(3), "own": r.below(3)})
            }
            15..=44 => {
                if r.chance(1, 5) {
                    ops.push(json!({"k": "run"}));
                    json!({"k": "newconn"})
                } else if r.chance(1, 4) {
                    if r.chance(1, 3) {
                        pid += 1;
                        ops.push(json!({"k": "push", "id": pid}));
                        ops.push(json!({"k": "stall", "ms": 1 + r.below(3000), "part": r.below(4)}));
                    }
                    json!({"k": "run", "until": *r.pick(&[0usize, 1, 17, 401, 1203, 2999, 7001]) + r.below(2)})
                } else {
                    json!({"k": "run"})
                }
            }
            45..=54 => {
                pid += 1;
                json!({"k": "push", "id": pid})
            }
            55..=60 => json!({"k": "adv", "ms": r.below(6000)}),
            61..=63 => json!({"k": "close", "uid": 1 + r.below(uid.max(1) as usize)}),
            64..=66 => json!({"k": "rlim", "ms": *r.pick(&[-1i64, 200, 1000, 1500, 3700, 30000])}),
            67..=68 => json!({"k": "wlim", "ms": *r.pick(&[-1i64, 300, 1000, 2500])}),
            69..=71 => json!({"k": "qlim", "d": *r.pick(&[0, 1, 700, 1300, 2000]), "b": *r.pick(&[0, 1, 4])}),
            72..=75 => json!({"k": "tfn", "vs": (0..r.below(4)).map(|_| r.chance(2, 3)).collect::<Vec<_>>(), "push": r.chance(1, 3)}),
            76 => json!({"k": "notfn"}),
            77..=81 => json!({"k": "stall", "ms": 1 + r.below(5000), "part": r.below(4)}),
            82..=83 => json!({"k": "mark", "v": r.below(9)}),
            84..=85 => json!({"k": "setsl", "n": 1 + r.below(200)}),
            86 => json!({"k": "lab"}),
            87..=88 => json!({"k": "reset"}),
            89..=92 => json!({"k": "newconn"}),
            93..=94 => json!({"k": "withconn"}),
            95 => json!({"k": *r.pick(&["addfail", "withspec", "noadj"])}),
            96..=98 => json!({"k": "adj"}),
            _ => json!({"k": "flush"}),
        };
        ops.push(op);
    }
    let mut id = 0;
    let mut conns = vec![];
    let mut t = 0i64;
    for _ in 0..nconn {
        let mut chunks = vec![];
        let m = r.below(if time { 6 } else { 12 });
        let mut start = true;
        for j in 0..m {
            id += 1;
            if start || r.chance(1, 2) {
                t += *r.pick(&[0i64, 0, 1, 13, 333, 997, 2111, 5003, 40013]) * (if r.chance(1, 2) { 1 } else { 0 });
            }
            let mut acts = vec![];
            for _ in 0..r.below(3) {
                let u = 1 + r.below(uid.max(1) as usize) as i64;
                acts.push(json!([u, if r.chance(1, 3) { 1 + r.below(2) } else { 0 }, r.chance(1, 3) as i64, if r.chance(1, 3) { r.below(4) } else { 0 }]));
            }
            let end = j == m - 1 && r.chance(3, 4) || r.chance(2, 3);
            start = end;
            chunks.push(json!({"t": t, "id": id, "acts": acts, "end": end}));
        }
        let eof = if r.chance(1, 3) { t + r.below(5000) as i64 } else { -1 };
        conns.push(json!({"chunks": chunks, "eof": eof}));
    }
    json!({"mode": *r.pick(&["sync", "tokio"]), "cut": r.below(1_000_000), "conns": conns, "ops": ops, "pre": pre})
}

pub fn record(ctx: &mut Ctx, flavour: &str) {
    if let Some(inp) = ctx.input.take() {
        for c in inp {
            for mode in ["sync", "tokio"] {
                let mut c = c.clone();
                c["mode"] = json!(mode);
                if c["pre"].is_null() {
                    c["pre"] = json!([]);
                }
                ctx.case(c.clone(), || run_case(&c));
            }
        }
        return;
    }
    let mut r = Rng::new(ctx.seed ^ 0xc11e);
    for _ in 0..ctx.n {
        let c = gen(&mut r, flavour);
        ctx.case(c.clone(), || run_case(&c));
    }
}
