//! Scenarios over the real channel on real threads, to be run by Miri with many schedules: Miri
//! itself reports invalid memory accesses, data races, leaks and deadlocks; the results printed
//! are judged against the specification.  Arguments: kind;rx-ops;tx-ops|tx-ops with ops op[:v],...
#![allow(clippy::all)]
mod rt {
    pub use vinezombie::client::channel;
    use std::cell::RefCell;
    thread_local! {
        pub static LOG: RefCell<Vec<(String, i64, String, Option<i64>)>> = const { RefCell::new(Vec::new()) };
        pub static RXT: RefCell<Option<std::thread::Thread>> = const { RefCell::new(None) };
    }
    pub fn call(op: &str, v: i64) {
        LOG.with(|l| l.borrow_mut().push((op.into(), v, "pending".into(), None)));
    }
    pub fn ret(r: &str, v: Option<i64>) {
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            let e = l.last_mut().unwrap();
            e.2 = r.into();
            e.3 = v;
        });
    }
    pub fn lib<T>(f: impl FnOnce() -> T) -> T {
        f()
    }
    pub static RX_DONE: (std::sync::Mutex<bool>, std::sync::Condvar) = (std::sync::Mutex::new(false), std::sync::Condvar::new());
    pub fn rx_done(b: bool) {
        *RX_DONE.0.lock().unwrap() = b;
        RX_DONE.1.notify_all();
    }
    pub fn await_rx() {
        let mut g = RX_DONE.0.lock().unwrap();
        while !*g {
            g = RX_DONE.1.wait(g).unwrap();
        }
    }
    pub fn stray() {
        RXT.with(|t| {
            if let Some(t) = &*t.borrow() {
                t.unpark()
            }
        })
    }
}
#[path = "../../conc/src/ops.rs"]
mod ops;
mod share;
use ops::*;
use rt::channel::{self, oneshot, parker, ChannelSpec};
use std::sync::atomic::Ordering::SeqCst;
fn parse(s: &str) -> Vec<(String, i64)> {
    s.split(',').filter(|o| !o.is_empty()).map(|o| match o.split_once(':') {
        Some((a, b)) => (a.to_string(), b.parse().unwrap()),
        None => (o.to_string(), 0),
    }).collect()
}
fn logged() -> String {
    let l = rt::LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let v: Vec<String> = l
        .iter()
        .map(|(op, v, r, x)| match x {
            Some(x) => format!("{{\"op\":\"{op}\",\"v\":{v},\"r\":[\"{r}\",{x}]}}"),
            None => format!("{{\"op\":\"{op}\",\"v\":{v},\"r\":[\"{r}\"]}}"),
        })
        .collect();
    format!("[{}]", v.join(","))
}
fn main() {
    for a in std::env::args().skip(1) {
        if a.starts_with("str;") {
            share::run(&a);
            continue;
        }
        let p: Vec<&str> = a.split(';').collect();
        let (kind, rxo) = (p[0], parse(p[1]));
        let txo: Vec<_> = p[2].split('|').map(parse).collect();
        for d in &DROPS {
            d.store(0, SeqCst);
        }
        BAD.store(0, SeqCst);
        rt::rx_done(false);
        let mut handles: Vec<Tx> = vec![];
        let rx = match kind {
            "raw" => {
                let (a, b) = oneshot::channel::<V>();
                handles.push(Tx::Raw(a));
                Rx { rx: Some(b), pk: None }
            }
            "park" => {
                let (a, b) = oneshot::channel::<V>();
                let (u, p) = parker::new(Some(a));
                handles.push(Tx::Unp(u));
                Rx { rx: Some(b), pk: Some(p) }
            }
            "dyn" => {
                let (a, (b, p)) = channel::SyncChannels.new_oneshot::<V>();
                handles.push(Tx::Dyn(a));
                Rx { rx: Some(b), pk: Some(p) }
            }
            _ => {
                let (u, p) = parker::new(());
                handles.push(Tx::Unit(u));
                Rx { rx: None, pk: Some(p) }
            }
        };
        for _ in 1..txo.len() {
            let c = match &handles[0] {
                Tx::Raw(x) => Tx::Raw(x.clone()),
                Tx::Unp(x) => Tx::Unp(x.clone()),
                Tx::Unit(x) => Tx::Unit(x.clone()),
                Tx::Dyn(_) => break,
            };
            handles.push(c);
        }
        handles.reverse();
        let rh = std::thread::spawn(move || {
            rx_thread(rx, rxo);
            rt::rx_done(true);
            logged()
        });
        let mut hs = vec![];
        for o in txo {
            let h: Vec<Tx> = handles.pop().into_iter().collect();
            let t = rh.thread().clone();
            hs.push(std::thread::spawn(move || {
                rt::RXT.with(|r| *r.borrow_mut() = Some(t));
                tx_thread(h, o);
                logged()
            }));
        }
        let mut logs = vec![rh.join().unwrap()];
        for h in hs {
            logs.push(h.join().unwrap());
        }
        let drops: Vec<String> = DROPS.iter().map(|d| d.load(SeqCst).to_string()).collect();
        println!("{{\"op\":\"threads\",\"scn\":{{\"kind\":\"{kind}\",\"id\":\"{a}\"}},\"logs\":[{}],\"drops\":[{}],\"bad\":{},\"st\":\"ok\"}}", logs.join(","), drops.join(","), BAD.load(SeqCst));
    }
}
