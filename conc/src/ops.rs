//! What the threads of a scenario do (shared by the scheduled and the Miri runs; the including
//! crate provides `rt`).
use crate::rt::channel::{self, oneshot, parker, Sender as _};
use crate::rt::{await_rx, call, lib, ret, stray};
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

// ---------------------------------------------------------------- the values
const MAGIC: u64 = 0x5eed_c0de_1234_abcd;
pub static DROPS: [AtomicUsize; 16] = [const { AtomicUsize::new(0) }; 16];
pub static BAD: AtomicUsize = AtomicUsize::new(0);
pub struct V(u64, usize);
impl V {
    pub fn new(id: usize) -> V {
        V(MAGIC, id)
    }
    fn id(&self) -> i64 {
        if self.0 != MAGIC || self.1 >= 16 {
            BAD.fetch_add(1, SeqCst);
            return -2;
        }
        self.1 as i64
    }
    /// Hands the value back to the user: no longer the library's to drop.
    fn back(self) -> i64 {
        let i = self.id();
        std::mem::forget(self);
        i
    }
}
impl Drop for V {
    fn drop(&mut self) {
        let i = self.id();
        if i >= 0 {
            DROPS[i as usize].fetch_add(1, SeqCst);
        }
    }
}

// ------------------------------------------------------------------- threads
pub enum Tx {
    Raw(oneshot::Sender<V>),
    Unp(parker::Unparker<Option<oneshot::Sender<V>>>),
    Dyn(Box<dyn channel::Sender<Value = V> + Send>),
    Unit(parker::Unparker<()>),
}
pub struct Rx {
    pub rx: Option<oneshot::Receiver<V>>,
    pub pk: Option<parker::Parker>,
}
fn cf(c: ControlFlow<channel::Sent>) -> &'static str {
    match c {
        ControlFlow::Continue(()) => "more",
        ControlFlow::Break(channel::Sent::Ok) => "ok",
        ControlFlow::Break(channel::Sent::Closed) => "closed",
    }
}
fn bit(b: bool) -> &'static str {
    if b { "true" } else { "false" }
}
pub fn tx_thread(mut hs: Vec<Tx>, ops: Vec<(String, i64)>) {
    for (op, v) in ops {
        let Some(h) = hs.last_mut() else {
            if op == "stray" {
                stray();
            }
            continue;
        };
        match op.as_str() {
            "send" => {
                call("send", v);
                match h {
                    Tx::Raw(_) => {
                        let Some(Tx::Raw(s)) = hs.pop() else { unreachable!() };
                        match lib(|| s.send(V::new(v as usize))) {
                            Ok(()) => ret("ok", None),
                            Err(x) => {
                                let id = x.back();
                                ret("back", Some(id))
                            }
                        }
                    }
                    Tx::Unp(u) => {
                        let r = lib(|| u.send(V::new(v as usize)));
                        ret(cf(r), None)
                    }
                    Tx::Dyn(u) => {
                        let r = lib(|| u.send(V::new(v as usize)));
                        ret(cf(r), None)
                    }
                    Tx::Unit(_) => ret("none", None),
                }
            }
            "clone" => {
                let n = match h {
                    Tx::Raw(s) => {
                        call("clone", 0);
                        Tx::Raw(lib(|| s.clone()))
                    }
                    Tx::Unp(s) => {
                        call("clone", 0);
                        Tx::Unp(lib(|| s.clone()))
                    }
                    Tx::Unit(s) => {
                        call("clone", 0);
                        Tx::Unit(lib(|| s.clone()))
                    }
                    Tx::Dyn(_) => continue,
                };
                ret("none", None);
                hs.push(n);
            }
            "closed" => {
                match h {
                    Tx::Raw(s) => {
                        call("closed", 0);
                        ret(bit(lib(|| s.is_closed())), None)
                    }
                    Tx::Unp(s) => {
                        call("may", 0);
                        ret(bit(lib(|| s.may_send())), None)
                    }
                    Tx::Dyn(s) => {
                        call("may", 0);
                        ret(bit(lib(|| s.may_send())), None)
                    }
                    Tx::Unit(_) => (),
                }
            }
            "unpark" => match h {
                Tx::Unp(u) => {
                    call("unpark", 0);
                    lib(|| u.unpark());
                    ret("none", None)
                }
                Tx::Unit(u) => {
                    call("unpark", 0);
                    lib(|| u.unpark());
                    ret("none", None)
                }
                _ => (),
            },
            "stray" => stray(),
            // keeps its handle until the receiving thread is done
            "await" => {
                call("await", 0);
                await_rx();
                ret("none", None);
            }
            "drop" => {
                call("drop", 0);
                let h = hs.pop().unwrap();
                lib(|| drop(h));
                ret("none", None);
            }
            x => panic!("harness: unknown op {x}"),
        }
    }
    while let Some(h) = hs.pop() {
        call("drop", 0);
        lib(|| drop(h));
        ret("none", None);
    }
}
pub fn rx_thread(mut r: Rx, ops: Vec<(String, i64)>) {
    let got = |v: Option<V>| match v {
        Some(v) => ret("some", Some(v.back())),
        None => ret("none", None),
    };
    for (op, _) in ops {
        match op.as_str() {
            "empty" if r.rx.is_some() => {
                call("empty", 0);
                ret(bit(lib(|| r.rx.as_ref().unwrap().is_empty())), None)
            }
            "recvnow" if r.rx.is_some() => {
                call("recvnow", 0);
                let x = r.rx.take().unwrap();
                got(lib(|| x.recv_now()))
            }
            "recv" if r.rx.is_some() && r.pk.is_some() => {
                call("recv", 0);
                let x = r.rx.take().unwrap();
                got(lib(|| x.recv(r.pk.as_ref().unwrap())))
            }
            "park" if r.pk.is_some() => {
                call("park", 0);
                lib(|| r.pk.as_ref().unwrap().park());
                ret("none", None)
            }
            "droprx" if r.rx.is_some() => {
                call("droprx", 0);
                let x = r.rx.take().unwrap();
                lib(|| drop(x));
                ret("none", None);
            }
            "droppk" if r.pk.is_some() => {
                call("droppk", 0);
                let x = r.pk.take().unwrap();
                lib(|| drop(x));
                ret("none", None);
            }
            "peek" if r.rx.is_some() => {
                call("peek", 0);
                let x = lib(|| r.rx.as_ref().unwrap().peek().map(|v| v.id()));
                match x {
                    Some(i) => ret("some", Some(i)),
                    None => ret("none", None),
                }
            }
            _ => (),
        }
    }
    if let Some(x) = r.rx.take() {
        call("droprx", 0);
        lib(|| drop(x));
        ret("none", None);
    }
    if let Some(x) = r.pk.take() {
        call("droppk", 0);
        lib(|| drop(x));
        ret("none", None);
    }
}

