//! Connects the real client code to servers with every kind of certificate and proof.
//! vtls --in CASES --out TRACE   (certificates are read from the crate's certs directory)
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::server::{ClientHello, ResolvesServerCert, WebPkiClientVerifier};
use rustls::sign::{CertifiedKey, Signer, SigningKey};
use rustls::{RootCertStore, ServerConfig, ServerConnection, SignatureAlgorithm, SignatureScheme};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::tls::{TlsConfig, TlsConfigOptions, Trust};
use vinezombie::string::Word;

fn path(name: &str) -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/certs")).join(name)
}
fn certs(name: &str) -> Vec<CertificateDer<'static>> {
    let mut f = BufReader::new(std::fs::File::open(path(name)).unwrap());
    rustls_pemfile::certs(&mut f).map(|c| c.unwrap()).collect()
}
fn key(name: &str) -> PrivateKeyDer<'static> {
    let mut f = BufReader::new(std::fs::File::open(path(name)).unwrap());
    rustls_pemfile::private_key(&mut f).unwrap().unwrap()
}
/// Signs with a scheme of its own choosing.
#[derive(Debug)]
struct OldScheme(Arc<dyn SigningKey>);
impl SigningKey for OldScheme {
    fn choose_scheme(&self, _: &[SignatureScheme]) -> Option<Box<dyn Signer>> {
        self.0.choose_scheme(&[SignatureScheme::RSA_PKCS1_SHA256])
    }
    fn algorithm(&self) -> SignatureAlgorithm {
        self.0.algorithm()
    }
}
#[derive(Debug)]
struct Fixed(Arc<CertifiedKey>);
impl ResolvesServerCert for Fixed {
    fn resolve(&self, _: ClientHello<'_>) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
}
fn server_config(c: &Value) -> Arc<ServerConfig> {
    let s = |k: &str| c[k].as_str().unwrap();
    let cert = s("cert");
    let from = match s("proof") {
        "stolen" => "good2.key".to_string(),
        _ => format!("{cert}.key"),
    };
    let mut k = rustls::crypto::ring::sign::any_supported_type(&key(&from)).unwrap();
    if s("proof") == "scheme" {
        k = Arc::new(OldScheme(k));
    }
    let ck = Arc::new(CertifiedKey::new(certs(&format!("{cert}.pem")), k));
    let version = if s("server") == "tls12" { &rustls::version::TLS12 } else { &rustls::version::TLS13 };
    let b = ServerConfig::builder_with_protocol_versions(&[version]);
    let b = if c["ask"] == true {
        let mut roots = RootCertStore::empty();
        for r in certs("both.pem") {
            roots.add(r).unwrap();
        }
        b.with_client_cert_verifier(WebPkiClientVerifier::builder(Arc::new(roots)).allow_unauthenticated().build().unwrap())
    } else {
        b.with_no_client_auth()
    };
    Arc::new(b.with_cert_resolver(Arc::new(Fixed(ck))))
}
const GREETING: &[u8] = b":srv NOTICE * :hello there\r\n";
const WORDS: &[u8] = b"PASS hunter2\r\n";
/// What the client says.
fn words(c: &Value) -> Vec<u8> {
    let mut v = WORDS.to_vec();
    if c["big"] == true {
        let mut x = 1u32;
        while v.len() < 300_000 {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            v.push((x >> 24) as u8);
        }
    }
    v
}
/// (certificate chain the client showed, everything read from the socket was free of the client's words)
fn serve(c: Value, l: TcpListener) -> (Value, bool) {
    let (mut sock, _) = l.accept().unwrap();
    sock.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    sock.set_write_timeout(Some(Duration::from_secs(20))).unwrap();
    let mut rec = Recorder { sock: sock.try_clone().unwrap(), seen: Vec::new() };
    let mut shown = json!([]);
    let all = words(&c);
    if c["server"] == "plain" {
        let _ = sock.write_all(GREETING);
        let mut b = [0; 4096];
        while let Ok(n) = rec.read(&mut b) {
            if n == 0 {
                break;
            }
            if rec.seen.len() >= all.len() {
                let _ = sock.write_all(&rec.seen).and_then(|_| sock.shutdown(std::net::Shutdown::Write));
            }
        }
    } else {
        let mut conn = ServerConnection::new(server_config(&c)).unwrap();
        let mut t = rustls::Stream::new(&mut conn, &mut rec);
        if t.write_all(GREETING).and_then(|_| t.flush()).is_ok() {
            let mut got = Vec::new();
            let mut b = [0; 4096];
            while let Ok(n) = t.read(&mut b) {
                if n == 0 {
                    break;
                }
                got.extend_from_slice(&b[..n]);
                if got.len() >= all.len() {
                    if t.write_all(&got).and_then(|_| t.flush()).is_err() {
                        break;
                    }
                    if c["cut"] == false {
                        t.conn.send_close_notify();
                        let _ = t.flush();
                    }
                    let _ = t.sock.sock.shutdown(std::net::Shutdown::Write);
                }
            }
        }
        if !conn.is_handshaking() {
            if let Some(chain) = conn.peer_certificates() {
                let known = ["cli1", "cli2", "cli3"].map(|n| (n, certs(&format!("{n}.pem"))));
                let n = known.iter().find(|k| k.1 == chain).map(|k| k.0).unwrap_or("other");
                shown = json!([n]);
            }
        }
    }
    let clear = rec.seen.windows(7).any(|w| w == &WORDS[5..12]);
    (shown, clear)
}
struct Recorder {
    sock: TcpStream,
    seen: Vec<u8>,
}
impl Read for Recorder {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.sock.read(buf)?;
        self.seen.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}
impl Write for Recorder {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.sock.write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.sock.flush()
    }
}
fn options(c: &Value) -> TlsConfigOptions {
    let files = || c["files"].as_array().unwrap().iter().map(|f| path(&format!("{}.pem", f.as_str().unwrap()))).collect();
    let trust = match c["trust"].as_str().unwrap() {
        "only" => Trust::Only(files()),
        "also" => Trust::Also(files()),
        "noverify" => Trust::NoVerify,
        _ => Trust::Default,
    };
    let cert = match c["cli"].as_str().unwrap() {
        "none" => None,
        n => Some(path(&format!("{n}.pem"))),
    };
    TlsConfigOptions { trust, cert }
}
/// Whether all arrived as it was sent, and how the connection ended.
fn client(c: &Value, cfg: Option<TlsConfig>, port: u16, called: &mut bool) -> std::io::Result<(bool, &'static str)> {
    let port = if c["default"] == true { None } else { Some(port) };
    let addr = ServerAddr { address: Word::from_bytes(c["addr"].as_str().unwrap()).unwrap(), tls: c["tls"] == true, port };
    let get = || {
        *called = true;
        cfg.ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "no config"))
    };
    let mut a = Vec::new();
    let all = words(c);
    let mut b = vec![0; all.len()];
    let mut rest = Vec::new();
    let end = |r: std::io::Result<usize>| match r {
        Ok(0) => "eof",
        Ok(_) => "more",
        Err(e) if matches!(e.kind(), std::io::ErrorKind::TimedOut | std::io::ErrorKind::WouldBlock) => "stall",
        Err(_) => "err",
    };
    let ended;
    let route = c["route"].as_str().unwrap();
    if route.starts_with("sync") {
        let mut conn = if route == "sync" { addr.connect(get)? } else { addr.connect_no_tls()? };
        conn.get_mut().set_read_timeout(Some(Duration::from_secs(20)))?;
        conn.read_until(b'\n', &mut a)?;
        conn.get_mut().write_all(&all)?;
        conn.get_mut().flush()?;
        conn.read_exact(&mut b)?;
        ended = end(conn.read_to_end(&mut rest));
        let _ = conn.get_mut().shutdown(std::net::Shutdown::Both);
    } else {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        ended = rt.block_on(async {
            tokio::time::timeout(Duration::from_secs(20), async {
                use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt};
                let mut conn = if route == "tokio" { addr.connect_tokio(get).await? } else { addr.connect_tokio_no_tls().await? };
                conn.read_until(b'\n', &mut a).await?;
                conn.get_mut().write_all(&all).await?;
                conn.get_mut().flush().await?;
                conn.read_exact(&mut b).await?;
                let ended = end(conn.read_to_end(&mut rest).await);
                let _ = conn.get_mut().shutdown().await;
                Ok::<_, std::io::Error>(ended)
            })
            .await
            .map_err(|_| std::io::Error::from(std::io::ErrorKind::TimedOut))?
        })?;
    }
    Ok((a == GREETING && b == all, ended))
}
/// Two addresses: the first one's port, whether they are equal and hash alike, and the short form.
fn addresses(c: &Value) -> Value {
    use std::hash::{Hash, Hasher};
    let mk = |v: &Value| ServerAddr {
        address: Word::from_bytes(v["host"].as_str().unwrap().to_string()).unwrap(),
        tls: v["tls"] == true,
        port: Some(v["port"].as_u64().unwrap() as u16).filter(|p| *p != 0),
    };
    let (a, b) = (mk(&c["a"]), mk(&c["b"]));
    let hash = |a: &ServerAddr| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        a.hash(&mut h);
        h.finish()
    };
    let host = c["a"]["host"].as_str().unwrap();
    let short = [ServerAddr::from_host(host).unwrap(), ServerAddr::from_host_str(host)];
    let short = short.iter().all(|s| s.address == a.address && s.tls && s.port.is_none() && *s == a);
    json!({"port": a.port_num(), "eq": a == b, "hash": hash(&a) == hash(&b), "short": short})
}
static STALLS: AtomicUsize = AtomicUsize::new(0);
/// Ports that the system gives to nobody else (a client never connects to itself or to another case's server).
fn listen() -> (TcpListener, u16) {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let base = std::process::id() as usize * 97;
    for _ in 0..20000 {
        let port = (10000 + (base + NEXT.fetch_add(1, Ordering::Relaxed)) % 20000) as u16;
        if let Ok(l) = TcpListener::bind(("127.0.0.1", port)) {
            return (l, port);
        }
    }
    eprintln!("harness: no port to listen on");
    std::process::exit(3);
}
fn run(c: &Value) -> Value {
    if c["a"].is_object() {
        return addresses(c);
    }
    let opts = options(c);
    let cfg = match opts.build() {
        Ok(cfg) => cfg,
        Err(_) => return json!({"r": "noconfig", "shown": [], "clear": false, "called": false, "end": ""}),
    };
    static USUAL: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let mut usual = None;
    let (l, port) = if c["default"] == true {
        usual = Some(USUAL.lock().unwrap());
        let port = if c["tls"] == true { 6697 } else { 6667 };
        match TcpListener::bind(("127.0.0.1", port)) {
            Ok(l) => (l, port),
            Err(_) => return Value::Null, // in use by somebody else
        }
    } else {
        listen()
    };
    let keep = l.try_clone().unwrap(); // the port stays ours until all is done
    let d = c.clone();
    let th = std::thread::spawn(move || serve(d, l));
    let mut called = false;
    let mut end = "";
    let r = match client(c, Some(cfg), port, &mut called) {
        Ok((true, e)) => {
            end = e;
            "accept"
        }
        Ok((false, _)) => "garbled",
        Err(e) => {
            if matches!(e.kind(), std::io::ErrorKind::TimedOut | std::io::ErrorKind::WouldBlock) {
                STALLS.fetch_add(1, Ordering::Relaxed);
            }
            "reject"
        }
    };
    let _ = TcpStream::connect(("127.0.0.1", port)); // in case the client never came
    let (shown, clear) = th.join().unwrap();
    drop(keep);
    drop(usual);
    json!({"r": r, "shown": shown, "clear": clear, "called": called, "end": end})
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap();
    // The system's certificates are those of our own "system".
    std::env::set_var("SSL_CERT_FILE", path("sys.pem"));
    std::env::remove_var("SSL_CERT_DIR");
    std::panic::set_hook(Box::new(|_| {}));
    let mut cases: Vec<Value> = std::fs::read_to_string(get("--in")).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    for c in &mut cases {
        let o = c.as_object_mut().unwrap();
        o.remove("st");
        o.remove("out");
    }
    // The first use of the options installs the cryptography; several at once must agree.
    let next = AtomicUsize::new(0);
    let outs = std::sync::Mutex::new(vec![Value::Null; cases.len()]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                let Some(c) = cases.get(i) else { break };
                if STALLS.load(Ordering::Relaxed) >= 8 {
                    break; // these will do
                }
                let mut o = c.clone();
                match std::panic::catch_unwind(|| run(c)) {
                    Ok(Value::Null) => continue,
                    Ok(v) => {
                        o["st"] = json!("ok");
                        o["out"] = v;
                    }
                    Err(e) => {
                        o["st"] = json!("panic");
                        o["out"] = json!(e.downcast_ref::<String>().cloned().unwrap_or_default());
                    }
                }
                outs.lock().unwrap()[i] = o;
            });
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(get("--out")).unwrap());
    for o in outs.into_inner().unwrap() {
        if !o.is_null() {
            writeln!(f, "{o}").unwrap();
        }
    }
}
