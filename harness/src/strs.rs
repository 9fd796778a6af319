//! Strings and secret buffers under arbitrary histories of safe operations.
use crate::arena;
use crate::core::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::VecDeque;
use std::hash::{Hash, Hasher};
use vinezombie::ircmsg::ClientMsg;
use vinezombie::names::cmd::PRIVMSG;
use vinezombie::owning::MakeOwning;
use vinezombie::string::base64::ChunkEncoder;
use vinezombie::string::tf::{escape, unescape, AsciiCasemap, IrcCasemap, StringSide, TrimAscii};
use vinezombie::string::*;

macro_rules! slots {
    ($($t:ident)*) => {
        #[derive(Clone)]
        pub enum S { $($t($t<'static>)),* }
        macro_rules! each {
            ($s:expr, $x:ident => $e:expr) => { match $s { $(S::$t($x) => $e),* } };
        }
        macro_rules! bytype {
            ($n:expr, $T:ident => $e:expr) => { match $n { $(stringify!($t) => { type $T<'x> = $t<'x>; $e })* x => panic!("type {x}") } };
        }
        impl S {
            fn ty(&self) -> &'static str { match self { $(S::$t(_) => stringify!($t)),* } }
            fn b(&self) -> &Bytes<'static> { each!(self, x => { let b: &Bytes<'static> = x; b }) }
        }
        $(impl From<$t<'static>> for S { fn from(x: $t<'static>) -> S { S::$t(x) } })*
    };
}
slots!(Bytes NoNul Line Word Arg Key Target Nick User Cmd);

/// Types that the checked constructors are uniform over.
trait Str: BytesNewtype<'static> + Into<S> + Sized {
    const N: &'static str;
    fn fb(b: Bytes<'static>) -> Option<Self>;
    fn fstr(s: &'static str) -> Self;
    fn fslice(s: &'static [u8]) -> Option<Self>;
    fn fstring(s: String) -> Option<Self>;
    fn fvec(s: Vec<u8>, how: bool) -> Option<Self>;
    fn fstrref(s: &'static str) -> Option<Self>;
    fn fsecret(v: Vec<u8>) -> Option<Self>;
    fn json(v: Value) -> Option<Self>;
    fn debytes(js: &str, v: &[u8]) -> Option<Self>;
    fn build(init: Option<Self>, pool: &[S], script: &[Value]) -> Option<(Self, Vec<i64>)>;
}
impl Str for Bytes<'static> {
    const N: &'static str = "Bytes";
    fn fb(b: Bytes<'static>) -> Option<Self> {
        Some(b)
    }
    fn fstr(s: &'static str) -> Self {
        Bytes::from_str(s)
    }
    fn fslice(s: &'static [u8]) -> Option<Self> {
        Some(Bytes::from(s))
    }
    fn fstring(s: String) -> Option<Self> {
        Some(Bytes::from(s))
    }
    fn fvec(s: Vec<u8>, _: bool) -> Option<Self> {
        Some(Bytes::from(s))
    }
    fn fstrref(s: &'static str) -> Option<Self> {
        Some(Bytes::from(s))
    }
    fn fsecret(v: Vec<u8>) -> Option<Self> {
        Some(Bytes::from_secret(v))
    }
    fn json(v: Value) -> Option<Self> {
        serde_json::from_value(v).ok()
    }
    fn debytes(js: &str, v: &[u8]) -> Option<Self> {
        de_value(js, v)
    }
    fn build(init: Option<Self>, pool: &[S], script: &[Value]) -> Option<(Self, Vec<i64>)> {
        Some(build_bytes(init, pool, script))
    }
}
fn de_value<T: serde::de::DeserializeOwned>(js: &str, v: &[u8]) -> Option<T> {
    use serde::de::value::*;
    use serde::de::IntoDeserializer;
    type E = serde::de::value::Error;
    match js {
        "bytes" => T::deserialize(BytesDeserializer::<E>::new(v)),
        "null" => T::deserialize(IntoDeserializer::<E>::into_deserializer(())),
        "false" => T::deserialize(IntoDeserializer::<E>::into_deserializer(false)),
        "true" => T::deserialize(IntoDeserializer::<E>::into_deserializer(true)),
        "num" => T::deserialize(IntoDeserializer::<E>::into_deserializer(7u64)),
        "str" => match std::str::from_utf8(v) {
            Ok(s) => T::deserialize(IntoDeserializer::<E>::into_deserializer(s)),
            Err(_) => return None,
        },
        "string" => match String::from_utf8(v.to_vec()) {
            Ok(s) => T::deserialize(IntoDeserializer::<E>::into_deserializer(s)),
            Err(_) => return None,
        },
        j => panic!("js {j}"),
    }
    .ok()
}
macro_rules! builder {
    ($f:ident, $t:ident, |$init:ident| $dflt:expr) => {
        fn $f($init: Option<$t<'static>>, pool: &[S], script: &[Value]) -> ($t<'static>, Vec<i64>) {
            let mut b: Builder<$t<'static>> = $dflt;
            let mut x = vec![];
            for o in script {
                let bytes = bj(&o["b"]);
                x.push(match kop2(o) {
                    "ap" => match &pool[us(&o["i"]) - 1] {
                        S::$t(v) => {
                            b.append(v.clone());
                            1
                        }
                        _ => -1,
                    },
                    "tb" => b.try_append(bytes).is_ok() as i64,
                    "ts" => b.try_append_str(std::str::from_utf8(&bytes).unwrap()).is_ok() as i64,
                    "tp" => b.try_push(bytes[0]).is_ok() as i64,
                    "tc" => b.try_push_char(std::str::from_utf8(&bytes).unwrap().chars().next().unwrap()).is_ok() as i64,
                    "cu" => b.check_utf8().is_ok() as i64,
                    "rs" => {
                        b.reserve(9);
                        b.reserve_exact(3);
                        1
                    }
                    "sf" => {
                        b.shrink_to_fit();
                        1
                    }
                    s => panic!("build step {s}"),
                });
            }
            (b.build(), x)
        }
    };
}
builder!(build_bytes, Bytes, |init| init.map(Builder::new).unwrap_or_default());
builder!(build_nonul, NoNul, |init| init.map(Builder::new).unwrap_or_default());
builder!(build_line, Line, |init| init.map(Builder::new).unwrap_or_default());
builder!(build_word, Word, |init| init.map(Builder::new).unwrap_or_default());
builder!(build_arg, Arg, |init| Builder::new(init.unwrap()));
builder!(build_key, Key, |init| Builder::new(init.unwrap()));
builder!(build_target, Target, |init| Builder::new(init.unwrap()));
builder!(build_nick, Nick, |init| Builder::new(init.unwrap()));
builder!(build_user, User, |init| Builder::new(init.unwrap()));
builder!(build_cmd, Cmd, |init| Builder::new(init.unwrap()));
fn has_default(t: &str) -> bool {
    matches!(t, "Bytes" | "NoNul" | "Line" | "Word")
}
macro_rules! strs {
    ($($t:ident $f:ident)*) => {$(
        impl Str for $t<'static> {
            const N: &'static str = stringify!($t);
            fn fb(b: Bytes<'static>) -> Option<Self> { $t::from_bytes(b).ok() }
            fn fstr(s: &'static str) -> Self { $t::from_str(s) }
            fn fslice(s: &'static [u8]) -> Option<Self> { $t::try_from(s).ok() }
            fn fstring(s: String) -> Option<Self> { $t::try_from(s).ok() }
            fn fvec(s: Vec<u8>, how: bool) -> Option<Self> { if how { $t::try_from(s).ok() } else { $t::from_bytes(s).ok() } }
            fn fstrref(s: &'static str) -> Option<Self> { $t::try_from(s).ok() }
            fn fsecret(v: Vec<u8>) -> Option<Self> { $t::from_secret(v).ok() }
            fn json(v: Value) -> Option<Self> { serde_json::from_value(v).ok() }
            fn debytes(js: &str, v: &[u8]) -> Option<Self> { de_value(js, v) }
            fn build(init: Option<Self>, pool: &[S], script: &[Value]) -> Option<(Self, Vec<i64>)> {
                if init.is_none() && !has_default(Self::N) { return None; }
                Some($f(init, pool, script))
            }
        }
    )*};
}
strs!(NoNul build_nonul Line build_line Word build_word Arg build_arg Key build_key Target build_target Nick build_nick User build_user Cmd build_cmd);

fn kop2(o: &Value) -> &str {
    o["s"].as_str().unwrap()
}
fn txt<'a>(o: &'a Value, k: &str) -> &'a str {
    o[k].as_str().unwrap()
}

/// Buffers that borrowed strings borrow from; overwritten once everything is owning.
struct Sources(Vec<Box<[u8]>>);
impl Sources {
    fn add(&mut self, b: &[u8]) -> &'static [u8] {
        self.0.push(b.to_vec().into_boxed_slice());
        let s: &[u8] = self.0.last().unwrap();
        unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) }
    }
}
fn none() -> S {
    S::Bytes(Bytes::empty())
}
/// Tell-tale signs of the content in a debug text.
fn tells(text: &str, content: &[u8]) -> Vec<u8> {
    tells_over("", text, content)
}
/// As above, where `base` is the text for some neutral content.
fn tells_over(base: &str, text: &str, content: &[u8]) -> Vec<u8> {
    let count = |t: &str, m: u8| t.bytes().filter(|b| *b == m).count();
    let mut v: Vec<u8> = "qQzZ".bytes().filter(|m| count(text, *m) > count(base, *m)).collect();
    if let Ok(s) = std::str::from_utf8(content) {
        // only text that cannot be part of the frame that debug output puts around any value
        let odd = s.chars().any(|c| !c.is_ascii() || c.is_ascii_digit() || "qQzZ".contains(c));
        if s.len() >= 4 && odd && text.contains(s) {
            v.push(1);
        }
    }
    let mut list = format!("{content:?}");
    list.pop();
    if content.len() >= 2 && text.contains(&list[1..]) {
        v.push(2);
    }
    v
}
fn obs(s: &S) -> Value {
    let b = s.b();
    let u = match b.is_utf8_lazy() {
        None => 0,
        Some(true) => 1,
        Some(false) => -1,
    };
    let c = s.clone();
    let disp = each!(&c, x => format!("{x}"));
    let dbg = each!(&c, x => format!("{x:?}{x:#?}"));
    json!({"ty": s.ty(), "b": jb(b.as_bytes()), "sec": each!(s, x => x.is_secret()), "u": u, "disp": jb(disp.as_bytes()), "dm": tells(&dbg, b.as_bytes())})
}

fn run_split<T>(sp: &mut Splitter<T>, script: &[Value], pos: &mut usize, x: &mut Vec<Value>, lz: &mut Vec<u8>, new: &mut Vec<S>)
where
    T: Str + Clone,
    Bytes<'static>: From<T>,
{
    while *pos < script.len() {
        let o = &script[*pos];
        *pos += 1;
        let at = |p: Option<u8>| arena_off(|| json!([p.map_or(-1i64, |v| v as i64)]));
        let mut r = json!([]);
        match kop2(o) {
            "next" => r = at(if o["v"] == 1 { sp.next() } else { sp.next_byte() }),
            "rnext" => r = at(sp.rnext_byte()),
            "peek" => r = at(sp.peek_byte()),
            "rpeek" => r = at(sp.rpeek_byte()),
            "len" => r = arena_off(|| json!([sp.len(), sp.is_empty() as u8])),
            "slice" => r = arena_off(|| jb(sp.as_slice())),
            "enc" => {
                let e = sp.check_encoding().is_ok();
                r = arena_off(|| json!([e as u8]))
            }
            "inval" => bytype!(txt(o, "ty"), U => sp.consume_invalid::<U<'static>>()),
            "ws" => sp.consume_whitespace(),
            "untilb" => {
                let set = arena_off(|| bj(&o["b"]));
                sp.until_byte(|b| set.contains(b));
            }
            "untileq" => {
                let b = us(&o["b"][0]) as u8;
                sp.until_byte_eq(b);
            }
            "count" => {
                sp.until_count(us(&o["n"]));
            }
            "save" => {
                let (st, en) = (o["st"] == true, o["en"] == true);
                let mut g = if !st && en && o["v"] == 1 { sp.save_end() } else { sp.save(st, en) };
                arena_off(|| {
                    x.push(json!([]));
                    lz.push(g.is_utf8_lazy() as u8)
                });
                run_split(&mut g, script, pos, x, lz, new);
                drop(g);
                if lz.len() < *pos {
                    // the "end" step of this save
                    arena_off(|| {
                        x.push(json!([]));
                        lz.push(sp.is_utf8_lazy() as u8)
                    });
                }
                continue;
            }
            "end" => return,
            k @ ("str" | "pstr") => bytype!(txt(o, "ty"), U => {
                let req = o["req"] == true;
                let got = if k == "str" { sp.string::<U<'static>>(req) } else { sp.peek_string::<U<'static>>(req) };
                r = arena_off(|| json!([got.is_ok() as u8]));
                if let Ok(v) = got { arena_off(|| new.push(v.into())) }
            }),
            "strd" => {
                let req = o["req"] == true;
                match txt(o, "ty") {
                    "Bytes" => { let v = sp.string_or_default::<Bytes<'static>>(req); arena_off(|| new.push(v.into())) }
                    "NoNul" => { let v = sp.string_or_default::<NoNul<'static>>(req); arena_off(|| new.push(v.into())) }
                    "Line" => { let v = sp.string_or_default::<Line<'static>>(req); arena_off(|| new.push(v.into())) }
                    "Word" => { let v = sp.string_or_default::<Word<'static>>(req); arena_off(|| new.push(v.into())) }
                    t => panic!("default of {t}"),
                }
            }
            k @ ("rest" | "prest") => {
                let got: Result<S, _> = if txt(o, "ty") == T::N {
                    if k == "rest" { sp.rest::<T>() } else { sp.peek_rest::<T>() }.map(Into::into)
                } else {
                    if k == "rest" { sp.rest::<Bytes<'static>>() } else { sp.peek_rest::<Bytes<'static>>() }.map(Into::into)
                };
                r = arena_off(|| json!([got.is_ok() as u8]));
                if let Ok(v) = got {
                    arena_off(|| new.push(v))
                }
            }
            "restd" => {
                let v = sp.rest_or_default::<Bytes<'static>>();
                arena_off(|| new.push(v.into()))
            }
            s => panic!("split step {s}"),
        }
        arena_off(|| {
            x.push(r);
            lz.push(sp.is_utf8_lazy() as u8)
        });
    }
}
/// Harness code inside a watched section.
fn arena_off<T>(f: impl FnOnce() -> T) -> T {
    arena::off();
    let r = f();
    arena::on();
    r
}

/// A case mapping by its advertised name; other names are no case mappings.
fn casemap(name: &'static [u8]) -> IrcCasemap {
    for other in [&b""[..], b"ASCII", b"rfc7613", b"rfc1459-", b"rfc145", b"strict-rfc1459", b"ascii\0"] {
        assert!(IrcCasemap::from_name(other).is_none());
    }
    IrcCasemap::from_name(name).expect("case mapping is known")
}
fn transform(s: &mut S, name: &str) -> bool {
    macro_rules! ap {
        ($tf:expr; $($t:ident)*) => { match s { $(S::$t(x) => { arena::watch(|| x.transform($tf)); true })* #[allow(unreachable_patterns)] _ => false } };
    }
    match name {
        "up" => ap!(AsciiCasemap::<true>; Bytes NoNul Line Word Arg Key Cmd),
        "low" => ap!(AsciiCasemap::<false>; Bytes NoNul Line Word Arg Key),
        "ascii" => ap!(casemap(b"ascii"); Bytes NoNul Line Word Arg Key Target Nick User),
        "strict" => ap!(casemap(b"rfc1459-strict"); Bytes NoNul Line Word Arg Key Target Nick User),
        "rfc1459" => ap!(casemap(b"rfc1459"); Bytes NoNul Line Word Arg Key Target Nick User),
        "trims" => ap!(TrimAscii(StringSide::Start); Bytes NoNul Line),
        "trime" => ap!(TrimAscii(StringSide::End); Bytes NoNul Line),
        "trimse" => ap!(TrimAscii(StringSide::StartFirst); Bytes NoNul Line),
        "trimes" => ap!(TrimAscii(StringSide::EndFirst); Bytes NoNul Line),
        n => panic!("transform {n}"),
    }
}
/// `From` conversions to more general types.
fn up(s: S, to: &str, sup: bool) -> Result<S, S> {
    macro_rules! go {
        ($($a:ident $sup:ident: $($b:ident)*;)*) => { match (s, to) {
            $((S::$a(x), stringify!($a)) => Ok(S::$a(x)),
              (S::$a(x), stringify!($sup)) if sup => Ok(S::$sup(x.into_super())),
              $((S::$a(x), stringify!($b)) => Ok(S::$b(x.into())),)*)*
            (S::NoNul(x), "Bytes") => Ok(S::Bytes(x.into())),
            (S::NoNul(x), "NoNul") => Ok(S::NoNul(x)),
            (S::Bytes(x), "Bytes") => Ok(S::Bytes(x)),
            (s, _) => Err(s),
        } };
    }
    go! {
        Line NoNul: Bytes NoNul; Word Line: Bytes NoNul Line; Arg Word: Bytes NoNul Line Word;
        Key Arg: Bytes NoNul Line Word Arg; Target Arg: Bytes NoNul Line Word Arg; Nick Target: Bytes NoNul Line Word Arg Target;
        User Arg: Bytes NoNul Line Word Arg; Cmd Arg: Bytes NoNul Line Word Arg;
    }
}
/// Checked conversions to any type.
fn cast(s: S, to: &str, tryfrom: bool) -> Option<S> {
    macro_rules! go {
        ($($b:ident: $($a:ident)*;)*) => { match (s, to) {
            $($((S::$a(x), stringify!($b)) if tryfrom => $b::try_from(x).ok().map(S::$b),)*)*
            (s, to) => bytype!(to, U => <U<'static> as Str>::fb(each!(s, x => BytesNewtype::into_bytes(x))).map(Into::into)),
        } };
    }
    go! {
        NoNul: Bytes; Line: Bytes NoNul; Word: Bytes NoNul Line; Arg: Bytes NoNul Line Word;
        Key: Bytes NoNul Line Word Arg; Target: Bytes NoNul Line Word Arg; Nick: Bytes NoNul Line Word Arg Target;
        User: Bytes NoNul Line Word Arg; Cmd: Bytes NoNul Line Word Arg;
    }
}
/// `from_super`: None if it does not apply.
fn down(s: &S, to: &str) -> Option<Option<S>> {
    macro_rules! go {
        ($($a:ident $b:ident;)*) => { match (s, to) {
            $((S::$a(x), stringify!($b)) => { let x = x.clone(); Some(arena::watch(|| $b::from_super(x)).ok().map(S::$b)) })*
            (S::Bytes(x), "NoNul") => { let x = x.clone(); Some(arena::watch(|| NoNul::from_bytes(x)).ok().map(S::NoNul)) }
            _ => None,
        } };
    }
    go! { NoNul Line; Line Word; Word Arg; Arg Key; Arg Target; Target Nick; Arg User; Arg Cmd; }
}
macro_rules! into_of {
    ($s:expr, $f:expr; $($t:ident)*) => { match $s { $(S::$t(x) => Ok($f(x.into())),)* s => Err(s) } };
}

struct St {
    pool: Vec<S>,
    src: Sources,
}
struct Res {
    st: &'static str,
    touched: Vec<usize>,
    x: Value,
    lz: Vec<u8>,
}
fn watched_vec(b: &[u8], extra: usize) -> Vec<u8> {
    arena::watch(|| {
        let mut v = Vec::with_capacity(b.len() + extra);
        v.extend_from_slice(b);
        v
    })
}
impl St {
    fn ok(&self, t: Vec<usize>) -> Res {
        Res { st: "ok", touched: t, x: json!([]), lz: vec![] }
    }
    fn bad(&self, st: &'static str) -> Res {
        Res { st, touched: vec![], x: json!([]), lz: vec![] }
    }
    fn add(&mut self, v: Option<S>) -> Res {
        match v {
            Some(v) => {
                self.pool.push(v);
                self.ok(vec![self.pool.len()])
            }
            None => self.bad("err"),
        }
    }
    fn put(&mut self, i: usize, v: Option<S>) -> Res {
        match v {
            Some(v) => {
                self.pool[i] = v;
                self.ok(vec![i + 1])
            }
            None => {
                self.pool[i] = none();
                self.bad("err")
            }
        }
    }
    fn take(&mut self, i: usize) -> S {
        std::mem::replace(&mut self.pool[i], none())
    }
    fn step(&mut self, o: &Value) -> Res {
        use arena::watch;
        let k = txt(o, "k");
        if k == "new" {
            let b = bj(&o["b"]);
            let how = txt(o, "how");
            let extra = us(&o["v"]) * 5;
            if matches!(how, "static" | "string" | "str") && std::str::from_utf8(&b).is_err() {
                return self.bad("err");
            }
            let v: Option<S> = bytype!(txt(o, "ty"), T => {
                type U = T<'static>;
                match how {
                    "static" => { let s = std::str::from_utf8(self.src.add(&b)).unwrap(); guarded(|| U::fstr(s)).ok() }
                    "slice" => { let s = self.src.add(&b); watch(|| U::fb(Bytes::from_bytes(s))) }
                    "copy" => { let s = self.src.add(&b); watch(|| U::fslice(s)) }
                    "str" => { let s = std::str::from_utf8(self.src.add(&b)).unwrap(); watch(|| U::fstrref(s)) }
                    "vec" => { let v = watched_vec(&b, extra); watch(|| U::fvec(v, extra > 0)) }
                    "string" => { let v = watched_vec(&b, extra); watch(|| U::fstring(unsafe { String::from_utf8_unchecked(v) })) }
                    "secretvec" => { let v = watched_vec(&b, extra); watch(|| U::fsecret(v)) }
                    "secretbuf" => { let v = watched_vec(&b, extra); watch(|| U::fb(SecretBuf::from(v).into_bytes())) }
                    h => panic!("how {h}"),
                }.map(Into::into)
            });
            return self.add(v);
        }
        if k == "de" {
            let b = bj(&o["b"]);
            let v: Option<S> = bytype!(txt(o, "ty"), T => {
                type U = T<'static>;
                match txt(o, "js") {
                    "json" => match String::from_utf8(b) { Ok(s) => U::json(json!(s)), Err(_) => None },
                    js => watch(|| U::debytes(js, &b)),
                }.map(Into::into)
            });
            return self.add(v);
        }
        if k == "uid" {
            let v = watch(|| User::from_id(us(&o["n"]) as u32));
            return self.add(Some(v.into()));
        }
        if k == "uids" {
            let v = watch(|| User::from_id_short(us(&o["n"]) as u16));
            return self.add(Some(v.into()));
        }
        if k == "build" {
            let i = us(&o["i"]);
            let script = o["script"].as_array().unwrap();
            let ty = txt(o, "ty");
            if i > 0 && self.pool[i - 1].ty() != ty {
                return self.bad("skip");
            }
            let init = if i > 0 { Some(self.pool[i - 1].clone()) } else { None };
            macro_rules! go {
                ($($t:ident)*) => { match (ty, init) {
                    $((stringify!($t), Some(S::$t(x))) => $t::build(Some(x), &self.pool, script).map(|(v, x)| (S::$t(v), x)),
                      (stringify!($t), None) => <$t<'static> as Str>::build(None, &self.pool, script).map(|(v, x)| (S::$t(v), x)),)*
                    _ => unreachable!(),
                } };
            }
            let Some((v, x)) = go!(Bytes NoNul Line Word Arg Key Target Nick User Cmd) else { return self.bad("skip") };
            let mut r = self.add(Some(v));
            r.x = json!(x);
            return r;
        }
        let i = us(&o["i"]) - 1;
        match k {
            "clone" => {
                let c = watch(|| self.pool[i].clone());
                self.add(Some(c))
            }
            "own" => {
                let s = self.take(i);
                let s = watch(|| each!(s, x => S::from(x.owning())));
                self.put(i, Some(s))
            }
            "mkown" => {
                watch(|| each!(&mut self.pool[i], x => x.make_owning()));
                self.ok(vec![i + 1])
            }
            "sec" => {
                let s = self.take(i);
                let s = watch(|| each!(s, x => S::from(x.secret())));
                self.put(i, Some(s))
            }
            "drop" => {
                drop(self.take(i));
                self.ok(vec![i + 1])
            }
            "lossy" => {
                let s = self.take(i);
                let s = watch(|| each!(s, x => BytesNewtype::into_bytes(x)).into_utf8_lossy());
                self.put(i, Some(s.into()))
            }
            "vec" => {
                let s = self.take(i);
                let v: Vec<u8> = watch(|| match o["v"].as_u64() {
                    Some(1) => std::borrow::Cow::<[u8]>::from(each!(s, x => BytesNewtype::into_bytes(x))).into_owned(),
                    _ => each!(s, x => x.into()),
                });
                arena::unmark(&v);
                self.put(i, Some(watch(|| Bytes::from(v)).into()))
            }
            "up" => {
                let s = self.take(i);
                match watch(|| up(s, txt(o, "ty"), o["v"] == 1)) {
                    Ok(s) => self.put(i, Some(s)),
                    Err(s) => {
                        self.pool[i] = s;
                        self.bad("skip")
                    }
                }
            }
            "cast" => {
                let s = self.take(i);
                let s = watch(|| cast(s, txt(o, "ty"), o["v"] == 1));
                self.put(i, s)
            }
            "down" => match down(&self.pool[i], txt(o, "ty")) {
                None => self.bad("skip"),
                Some(r) => self.put(i, r),
            },
            "cmdw" => {
                let s = self.take(i);
                match watch(|| into_of!(s, |w: Word<'static>| Cmd::from_word(w).ok(); Word Arg Key Target Nick User Cmd)) {
                    Ok(r) => self.put(i, r.map(S::Cmd)),
                    Err(s) => {
                        self.pool[i] = s;
                        self.bad("skip")
                    }
                }
            }
            "nick" => {
                let s = self.take(i);
                match watch(|| into_of!(s, |w: Arg<'static>| Nick::from_arg(w).ok(); Arg Key Target Nick User Cmd)) {
                    Ok(r) => self.put(i, r.map(S::Nick)),
                    Err(s) => {
                        self.pool[i] = s;
                        self.bad("skip")
                    }
                }
            }
            "tf" => {
                if transform(&mut self.pool[i], txt(o, "name")) {
                    self.ok(vec![i + 1])
                } else {
                    self.bad("skip")
                }
            }
            "esc" | "unesc" => {
                let s = self.take(i);
                let f = |w: NoNul<'static>| if k == "esc" { S::Word(escape(w)) } else { S::NoNul(unescape(w)) };
                match watch(|| into_of!(s, f; NoNul Line Word Arg Key Target Nick User Cmd)) {
                    Ok(r) => self.put(i, Some(r)),
                    Err(s) => {
                        self.pool[i] = s;
                        self.bad("skip")
                    }
                }
            }
            "b64" => {
                let v = watch(|| self.pool[i].b().to_base64());
                self.add(Some(v.into()))
            }
            "b64p" => {
                let v = watch(|| self.pool[i].b().to_base64_plus());
                self.add(Some(v.into()))
            }
            "chunk" => {
                let s = &self.pool[i];
                let mut e = watch(|| ChunkEncoder::new(s.b().as_bytes(), us(&o["n"]), s.b().is_secret()));
                let mut new = vec![];
                while let Some(c) = watch(|| e.next()) {
                    new.push(S::Arg(c));
                }
                let n = self.pool.len();
                let t = (n + 1..=n + new.len()).collect();
                self.pool.extend(new);
                self.ok(t)
            }
            "utf8" => {
                let u = self.pool[i].b().to_utf8().is_some();
                let mut r = self.ok(vec![i + 1]);
                r.x = json!([u as u8]);
                r
            }
            "lview" => {
                let c: Bytes<'static> = each!(self.pool[i].clone(), x => BytesNewtype::into_bytes(x));
                let (l, l2) = (c.to_utf8_lossy().into_owned(), c.to_utf8_lossy_static().into_owned());
                drop(c);
                let mut r = self.ok(vec![i + 1]);
                r.x = if l == l2 { jb(l.as_bytes()) } else { json!("differ") };
                r
            }
            "ctag" => {
                let S::Key(x) = &self.pool[i] else { return self.bad("skip") };
                let mut r = self.ok(vec![]);
                r.x = json!([x.is_client_tag() as u8]);
                r
            }
            "tilde" => {
                let S::User(x) = &self.pool[i] else { return self.bad("skip") };
                let mut r = self.ok(vec![]);
                r.x = json!([x.no_tilde() as u8, x.len_with_tilde()]);
                r
            }
            "cstr" => {
                macro_rules! go { ($($t:ident)*) => { match self.pool[i].clone() { $(S::$t(x) => { let z: Vec<u8> = x.as_bytes_nonzero().iter().map(|b| b.get()).collect(); Some((x.into_cstring(), z)) })* _ => None } } }
                let Some((c, z)) = go!(NoNul Line Word Arg Key Target Nick User Cmd) else { return self.bad("skip") };
                let mut r = self.ok(vec![]);
                r.x = if c.as_bytes() == z { jb(&z) } else { json!("differ") };
                r
            }
            "cmp" => {
                let a = self.pool[i].b();
                let b = self.pool[us(&o["j"]) - 1].b();
                let eq = a == b;
                let h = |x: &Bytes| {
                    let mut h = DefaultHasher::new();
                    x.hash(&mut h);
                    h.finish()
                };
                let mut e = eq as i64;
                if (*a == *b.as_bytes()) != eq || (eq && h(a) != h(b)) || a.partial_cmp(b) != Some(a.cmp(b)) {
                    e = -9;
                }
                if let Ok(s) = std::str::from_utf8(b.as_bytes()) {
                    if (*a == *s) != eq {
                        e = -9;
                    }
                }
                let mut r = self.ok(vec![]);
                r.x = json!([e, a.cmp(b) as i8]);
                r
            }
            "split" => {
                let s = self.pool[i].clone();
                let script = o["script"].as_array().unwrap();
                let (mut x, mut lz, mut new, mut pos) = (vec![], vec![], vec![], 0);
                each!(s, v => watch(|| {
                    let mut sp = Splitter::new(v);
                    run_split(&mut sp, script, &mut pos, &mut x, &mut lz, &mut new)
                }));
                let n = self.pool.len();
                let t = (n + 1..=n + new.len()).collect();
                self.pool.extend(new);
                let mut r = self.ok(t);
                r.x = Value::Array(x);
                r.lz = lz;
                r
            }
            "msg" => {
                let s = self.pool[i].clone();
                let content = s.b().as_bytes().to_vec();
                let mut m = ClientMsg::new(PRIVMSG);
                let done = {
                    let mut e = m.args.edit();
                    e.add_literal("x");
                    match s {
                        S::Line(l) => { e.add(l); true }
                        S::Word(l) => { e.add(l); true }
                        S::Arg(l) => { e.add_word(l); true }
                        S::Key(l) => { e.add_word(l); true }
                        S::Target(l) => { e.add_word(l); true }
                        S::Nick(l) => { e.add_word(l); true }
                        S::User(l) => { e.add_word(l); true }
                        S::Cmd(l) => { e.add_word(l); true }
                        _ => false,
                    }
                };
                if !done {
                    return self.bad("skip");
                }
                let mut w = vec![];
                m.write_to(&mut w).unwrap();
                let show = |m: &ClientMsg<'static>| format!("{m:?}{m:#?}{:?}{:?}", m.args, m.clone().owning());
                let dbg = show(&m);
                let mut neutral = ClientMsg::new(PRIVMSG);
                neutral.args.edit().add_literal("x");
                neutral.args.edit().add_literal("A");
                let back = ClientMsg::parse(Line::from_bytes(w.clone()).unwrap()).unwrap();
                let tail = back.args.split_last().1.map(|l| l.as_bytes().to_vec()).unwrap_or_default();
                let mut r = self.ok(vec![]);
                r.x = json!({"tail": jb(&tail), "dm": tells_over(&show(&neutral), &dbg, &content)});
                r
            }
            "ser" => {
                let s = self.pool[i].clone();
                if std::str::from_utf8(s.b().as_bytes()).is_err() {
                    return self.bad("skip");
                }
                let j: Value = each!(&s, x => serde_json::to_value(x).unwrap());
                let v: Option<S> = bytype!(s.ty(), T => <T<'static> as Str>::json(j).map(Into::into));
                self.put(i, v)
            }
            k => panic!("op {k}"),
        }
    }
    fn marks(&self) {
        for s in &self.pool {
            if s.b().is_secret() && s.b().is_owning() {
                arena::mark(s.b().as_bytes());
            }
        }
    }
}
fn mem_json(m: arena::Mem) -> Value {
    json!({"canary": m.canary, "dfree": m.dfree, "leak": m.leak, "unzeroed": m.unzeroed, "residue": m.residue, "uaf": m.uaf})
}
fn run_str(o: &Value) -> Value {
    arena::start(o["strict"] == true);
    let mut s = St { pool: vec![none()], src: Sources(vec![]) };
    let mut out = vec![];
    for op in o["ops"].as_array().unwrap() {
        let r = s.step(op);
        s.marks();
        let ob: Vec<Value> = r.touched.iter().map(|i| obs(&s.pool[*i - 1])).collect();
        out.push(json!({"st": r.st, "ob": ob, "x": r.x, "lz": r.lz}));
    }
    // everything owning must survive its sources
    let pool: Vec<S> = s.pool.drain(..).map(|x| arena::watch(|| each!(x, v => S::from(v.owning())))).collect();
    s.pool = pool;
    s.marks();
    for b in &mut s.src.0 {
        b.fill(0xEE);
    }
    let fin: Vec<Value> = s.pool.iter().map(obs).collect();
    // release in an order that depends on the history
    let n = s.pool.len();
    if n % 2 == 0 {
        s.pool.reverse();
    }
    drop(s);
    json!({"r": out, "fin": fin, "mem": mem_json(arena::end())})
}

// ---------------------------------------------------------------- secret buffers
struct Pieces(std::collections::VecDeque<(Vec<u8>, bool)>);
impl std::io::Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        arena::off();
        let r = match self.0.pop_front() {
            None => Ok(0),
            Some((_, true)) => Err(std::io::Error::from(std::io::ErrorKind::Other)),
            Some((b, false)) => {
                let n = b.len().min(buf.len());
                buf[..n].copy_from_slice(&b[..n]);
                if n < b.len() {
                    self.0.push_front((b[n..].to_vec(), false));
                }
                Ok(n)
            }
        };
        arena::on();
        r
    }
}
struct Hinted(std::vec::IntoIter<u8>, usize);
impl Iterator for Hinted {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => self.0.size_hint(),
            1 => (0, None),
            2 => (0, Some(self.0.len() + 3)),
            _ => (self.0.len() / 2, Some(self.0.len())),
        }
    }
}
fn run_sbuf(o: &Value) -> Value {
    arena::start(true);
    let mut buf: Option<SecretBuf> = Some(arena::watch(SecretBuf::default));
    let mut out = vec![];
    let ops = o["ops"].as_array().unwrap();
    for op in ops {
        let b = bj(&op["b"]);
        let mut x = json!([]);
        let mut s = buf.take().unwrap();
        match txt(op, "k") {
            "cap" => s = arena::watch(|| SecretBuf::with_capacity(us(&op["n"]))),
            "dflt" => s = arena::watch(SecretBuf::default),
            "from" => {
                let v = watched_vec(&b, us(&op["n"]));
                s = arena::watch(|| SecretBuf::from(v))
            }
            "iter" => {
                let h = Hinted(b.into_iter(), us(&op["n"]));
                s = arena::watch(|| h.collect());
            }
            "push" => arena::watch(|| s.push(us(&op["v"]) as u8, us(&op["n"]))),
            "cstr" => arena::watch(|| s.push_cstr(&b)),
            "slice" => arena::watch(|| s.push_slice(&b)),
            "read" => {
                let mut p = Pieces(op["pieces"].as_array().unwrap().iter().map(|p| (bj(&p["b"]), p["err"] == true)).collect());
                x = match arena::watch(|| s.read_from(us(&op["n"]), &mut p)) {
                    Ok(n) => json!([n]),
                    Err(_) => json!([-1]),
                };
            }
            "clear" => s.clear(),
            "reserve" => arena::watch(|| s.reserve(us(&op["n"]))),
            "clone" => s = arena::watch(|| s.clone()),
            "view" => drop(arena::watch(|| s.as_bytes().owning())),
            // through a string and back: the content comes back the same
            "into" => {
                let v = arena::watch(|| s.into_bytes());
                let sec = v.is_secret();
                let keep = v.as_bytes().to_vec();
                let c = v.clone();
                drop(v);
                x = json!([(sec && c.as_bytes() == keep) as u8]);
                drop(c);
                s = arena::watch(SecretBuf::default);
            }
            k => panic!("sbuf op {k}"),
        }
        let (bytes, sec, dm) = {
            let v = arena::watch(|| s.as_bytes());
            (v.as_bytes().to_vec(), v.is_secret(), tells(&format!("{v:?} {v}"), v.as_bytes()))
        };
        out.push(json!({"b": jb(&bytes), "x": x, "empty": s.is_empty(), "sec": sec, "dm": dm, "same": s.as_ref() == bytes}));
        buf = Some(s);
    }
    drop(buf);
    json!({"r": out, "mem": mem_json(arena::end())})
}

// ---------------------------------------------------------------- generation
const TYS: [&str; 10] = ["Bytes", "NoNul", "Line", "Word", "Arg", "Key", "Target", "Nick", "User", "Cmd"];
const DEF: [&str; 4] = ["Bytes", "NoNul", "Line", "Word"];
const TFS: [&str; 9] = ["up", "low", "ascii", "strict", "rfc1459", "trims", "trime", "trimse", "trimes"];
fn content(r: &mut Rng) -> Vec<u8> {
    const PIECES: [&[u8]; 40] = [
        b"q", b"Q", b"z", b"Z", b"q", b"+", b"A", b"B", b"AB", b"\0", b"\r", b"\n", b" ", b" ", b":", b"=", b";", b",", b"!", b"@", b"%", b"\\", b"\\s", b"\\:", b"~", b"[", b"]", b"{", b"^",
        b"\t", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), b"\xff", b"\xc3", b"\xe2\x82", b"\x80", b"\xed\xa0\x80", b"\x0b", b"\x7f",
    ];
    let mode = r.below(8);
    let mut v = vec![];
    let n = if r.chance(1, 40) { 30 + r.below(60) } else { r.below(6) };
    for _ in 0..n {
        v.extend_from_slice(match mode {
            0 => PIECES[r.below(6)],
            1 => PIECES[6 + r.below(3)],
            2 | 3 => PIECES[r.below(30)],
            4 => PIECES[[0, 1, 2, 3, 25, 26, 28, 30, 31, 32][r.below(10)]],
            5 => PIECES[30 + r.below(8)],
            6 => PIECES[[0, 1, 2, 3, 0, 1, 2, 3, 12, 14, 15, 17, 18, 19][r.below(14)]],
            _ => PIECES[r.below(40)],
        });
    }
    if r.chance(1, 60) {
        v = vec![r.next() as u8; 1 + r.below(2)];
    }
    v
}
fn utf8_content(r: &mut Rng) -> Vec<u8> {
    let v = content(r);
    match std::str::from_utf8(&v) {
        Ok(_) => v,
        Err(e) => v[..e.valid_up_to()].to_vec(),
    }
}
fn split_script(r: &mut Rng, own: &str, max: usize) -> Value {
    let mut v = vec![];
    let mut open = 0;
    for _ in 0..r.below(max + 1) {
        let ty = *r.pick(&TYS);
        let flip = r.below(2);
        v.push(match r.below(22) {
            0 => json!({"s": "next", "v": flip}),
            1 => json!({"s": "rnext"}),
            2 => json!({"s": "peek"}),
            3 => json!({"s": "rpeek"}),
            4 => json!({"s": "len"}),
            5 => json!({"s": "slice"}),
            6 | 7 => json!({"s": "enc"}),
            8 => json!({"s": "inval", "ty": ty}),
            9 => json!({"s": "ws"}),
            10 => json!({"s": "untilb", "b": jb(&r.bytes(b" :=,!@qZ\xa9\xc3", 3))}),
            11 => json!({"s": "untileq", "b": [*r.pick(b" :=,!@qZ\xa9\xc3\x82".as_slice())]}),
            12 | 13 => json!({"s": "count", "n": r.below(6)}),
            14 | 15 => {
                open += 1;
                json!({"s": "save", "st": r.chance(1, 2), "en": r.chance(2, 3), "v": flip})
            }
            16 => {
                if open == 0 {
                    continue;
                }
                open -= 1;
                json!({"s": "end"})
            }
            17 => json!({"s": "str", "ty": ty, "req": r.chance(1, 3)}),
            18 => json!({"s": "pstr", "ty": ty, "req": r.chance(1, 3)}),
            19 => json!({"s": "strd", "ty": *r.pick(&DEF), "req": r.chance(1, 3)}),
            20 => json!({"s": *r.pick(&["rest", "prest"]), "ty": if r.chance(1, 2) { own } else { "Bytes" }}),
            _ => json!({"s": "restd"}),
        });
    }
    json!(v)
}
fn build_script(r: &mut Rng, pool: usize) -> Value {
    let mut v = vec![];
    for _ in 0..r.below(6) {
        v.push(match r.below(9) {
            0 | 1 => json!({"s": "ap", "i": 1 + r.below(pool)}),
            2 => json!({"s": "tb", "b": jb(&content(r))}),
            3 => json!({"s": "ts", "b": jb(&utf8_content(r))}),
            4 => json!({"s": "tp", "b": [*r.pick(b"qZA :\xc3\xa9\0".as_slice())]}),
            5 => {
                let c = *r.pick(&['q', 'Z', ' ', '\u{e9}', '\u{1f600}', '\n']);
                json!({"s": "tc", "b": jb(c.to_string().as_bytes())})
            }
            6 => json!({"s": "cu"}),
            7 => json!({"s": "rs"}),
            _ => json!({"s": "sf"}),
        });
    }
    json!(v)
}
/// A string that is the only owner of a buffer but not the start of it, put to some use.
fn tail_of_owned(r: &mut Rng, strict: bool) -> VecDeque<Value> {
    let mut t = VecDeque::new();
    let how = if strict { *r.pick(&["secretvec", "secretbuf"]) } else { *r.pick(&["vec", "string", "secretvec", "secretbuf"]) };
    let mut ty = *r.pick(&["Bytes", "Bytes", "NoNul", "Line", "Word", "Arg"]);
    let n = 1 + r.below(3);
    let mut b = r.bytes(b"qQzZ", 3);
    let by_trim = r.chance(1, 3);
    if by_trim {
        ty = *r.pick(&["Bytes", "NoNul", "Line"]);
        b.extend(vec![b' '; n]);
        b.rotate_right(n);
    } else {
        b.extend(vec![b'x'; n]);
    }
    if r.chance(1, 2) {
        b.extend(r.bytes(b"qZ", 12));
    }
    t.push_back(json!({"k": "new", "how": how, "ty": ty, "b": jb(&b), "v": r.below(2)}));
    if r.chance(1, 4) {
        t.push_back(json!({"k": "lview", "i": 2}));
    }
    let mut at = 2;
    if by_trim {
        t.push_back(json!({"k": "tf", "i": 2, "name": *r.pick(&["trims", "trimse", "trimes"])}));
    } else {
        let mut sc = vec![];
        for _ in 0..n {
            sc.push(json!({"s": "next", "v": r.below(2)}));
        }
        if r.chance(1, 4) {
            sc.push(json!({"s": "rnext"}));
        }
        sc.push(json!({"s": "rest", "ty": "Bytes"}));
        t.push_back(json!({"k": "split", "i": 2, "script": sc}));
        t.push_back(json!({"k": "drop", "i": 2}));
        at = 3;
    }
    for _ in 0..1 + r.below(3) {
        t.push_back(match r.below(if strict { 5 } else { 9 }) {
            0 => json!({"k": "own", "i": at}),
            1 => json!({"k": "tf", "i": at, "name": *r.pick(&TFS)}),
            2 => json!({"k": "clone", "i": at}),
            3 => json!({"k": "b64", "i": at}),
            4 => json!({"k": "cast", "i": at, "ty": *r.pick(&["Line", "Word", "Arg"]), "v": 0}),
            5 => json!({"k": "build", "ty": "Bytes", "i": at, "script": build_script(r, at)}),
            6 => json!({"k": "sec", "i": at}),
            _ => json!({"k": "vec", "i": at, "v": r.below(2)}),
        });
    }
    t
}
/// A history; the generator follows the pool's size and types by running it as it goes.
fn gen_str(r: &mut Rng, strict: bool) -> Value {
    let mut s = St { pool: vec![none()], src: Sources(vec![]) };
    let mut ops: Vec<Value> = vec![];
    arena::start(false);
    let mut todo: VecDeque<Value> = VecDeque::new();
    if r.chance(1, 6) {
        todo = tail_of_owned(r, strict);
    }
    for step in 0..2 + r.below(9) {
        let n = s.pool.len();
        let i = if r.chance(2, 3) { n } else { 1 + r.below(n) };
        let tyi = s.pool[i - 1].ty();
        let ty = *r.pick(&TYS);
        let flip = r.below(2);
        let o = if let Some(o) = todo.pop_front() {
            o
        } else if step == 0 || r.chance(1, 6) || strict && !s.pool[i - 1].b().is_secret() {
            let how = if strict { *r.pick(&["secretvec", "secretbuf", "slice", "static"]) } else { *r.pick(&["static", "slice", "copy", "vec", "string", "str", "secretvec", "secretbuf"]) };
            let mut b = if r.chance(1, 2) { utf8_content(r) } else { content(r) };
            let mut t = if r.chance(1, 3) { "Bytes" } else { ty };
            if t == "Cmd" && r.chance(2, 3) {
                b = r.bytes(b"QZAB", 5);
            }
            if strict && how == "slice" || how == "static" && strict {
                if std::str::from_utf8(&b).is_err() || b.iter().any(|c| !c.is_ascii_alphabetic()) {
                    b = r.bytes(b"qQzZ", 6);
                }
                t = "Bytes";
                todo.push_back(json!({"k": "sec", "i": n + 1}));
            }
            json!({"k": "new", "how": how, "ty": t, "b": jb(&b), "v": flip})
        } else {
            match r.below(if strict { 18 } else { 30 }) {
                0 => json!({"k": "clone", "i": i}),
                1 => json!({"k": "own", "i": i}),
                2 => json!({"k": "mkown", "i": i}),
                3 => json!({"k": "drop", "i": i}),
                4 => {
                    let anc = ["Bytes", "NoNul", "Line", "Word", "Arg", "Target"];
                    json!({"k": "up", "i": i, "ty": *r.pick(&anc), "v": flip})
                }
                5 | 6 => json!({"k": "cast", "i": i, "ty": ty, "v": flip}),
                7 => {
                    let t = match tyi {
                        "Bytes" => "NoNul",
                        "NoNul" => "Line",
                        "Line" => "Word",
                        "Word" => "Arg",
                        "Arg" => *r.pick(&["Key", "Target", "User", "Cmd"]),
                        "Target" => "Nick",
                        _ => "Cmd",
                    };
                    json!({"k": "down", "i": i, "ty": t})
                }
                8 => json!({"k": *r.pick(&["cmdw", "nick"]), "i": i}),
                9 | 10 => json!({"k": "tf", "i": i, "name": *r.pick(&TFS)}),
                11 => json!({"k": "esc", "i": i}),
                12 => json!({"k": "unesc", "i": i}),
                13 => json!({"k": *r.pick(&["b64", "b64p"]), "i": i}),
                14 => json!({"k": "chunk", "i": i, "n": 1 + r.below(9)}),
                15 => json!({"k": *r.pick(&["utf8", "lview"]), "i": i}),
                16 => json!({"k": "split", "i": i, "script": split_script(r, tyi, 5)}),
                17 => json!({"k": "msg", "i": i}),
                18 => json!({"k": "split", "i": i, "script": split_script(r, tyi, 7)}),
                19 => json!({"k": "sec", "i": i}),
                20 => json!({"k": "lossy", "i": i}),
                21 => json!({"k": "vec", "i": i, "v": flip}),
                22 => json!({"k": "cmp", "i": i, "j": 1 + r.below(n)}),
                23 => json!({"k": "ser", "i": i}),
                26 => match tyi {
                    "Key" => json!({"k": "ctag", "i": i}),
                    "User" => json!({"k": "tilde", "i": i}),
                    _ => json!({"k": "cstr", "i": i}),
                },
                27 => {
                    if flip == 1 {
                        json!({"k": "uid", "n": *r.pick(&[0usize, 1, 255, 0x0fff_ffff, 0x7fff_ffff, 123_456_789])})
                    } else {
                        json!({"k": "uids", "n": *r.pick(&[0usize, 1, 9, 99, 10_000, 65_535])})
                    }
                }
                24 => {
                    let js = *r.pick(&["null", "false", "true", "num", "str", "string", "json", "bytes"]);
                    let b = if js != "bytes" { utf8_content(r) } else { content(r) };
                    json!({"k": "de", "ty": ty, "js": js, "b": jb(&b)})
                }
                _ => {
                    let (t, k) = if r.chance(1, 2) { (*r.pick(&DEF), 0) } else { (tyi, i) };
                    json!({"k": "build", "ty": t, "i": k, "script": build_script(r, n)})
                }
            }
        };
        if guarded(|| s.step(&o)).is_err() {
            ops.push(o);
            break;
        }
        ops.push(o);
        if s.pool.len() > 14 {
            break;
        }
    }
    while let Some(o) = todo.pop_front() {
        ops.push(o);
    }
    drop(s);
    arena::end();
    json!({"op": "str", "strict": strict, "ops": ops})
}
fn gen_sbuf(r: &mut Rng) -> Value {
    let mut ops = vec![];
    let big = r.chance(1, 6);
    let c = |r: &mut Rng| -> Vec<u8> {
        let n = if big { 20 + r.below(60) } else { r.below(7) };
        (0..n).map(|_| *r.pick(b"qQzZ\x01\xff".as_slice())).collect()
    };
    for _ in 0..1 + r.below(8) {
        ops.push(match r.below(17) {
            0 => json!({"k": "cap", "n": r.below(12)}),
            1 => json!({"k": "dflt"}),
            2 => json!({"k": "from", "b": jb(&c(r)), "n": r.below(6)}),
            3 => json!({"k": "iter", "b": jb(&c(r)), "n": r.below(4)}),
            4 | 5 => json!({"k": "push", "v": *r.pick(b"qZ".as_slice()), "n": r.below(5)}),
            6 | 7 => json!({"k": "cstr", "b": jb(&c(r))}),
            8 | 9 => json!({"k": "slice", "b": jb(&c(r))}),
            10 | 11 => {
                let mut ps = vec![];
                for _ in 0..r.below(4) {
                    ps.push(json!({"b": jb(&c(r)), "err": r.chance(1, 8)}));
                }
                json!({"k": "read", "n": r.below(if big { 90 } else { 12 }), "pieces": ps})
            }
            12 => json!({"k": "clear"}),
            13 => json!({"k": "reserve", "n": r.below(20)}),
            14 => json!({"k": "clone"}),
            15 => json!({"k": "view"}),
            _ => json!({"k": "into"}),
        });
    }
    json!({"op": "sbuf", "ops": ops})
}
pub fn record(ctx: &mut Ctx, ops: &[&str]) {
    if let Some(input) = ctx.input.take() {
        for v in input {
            let v2 = v.clone();
            let sb = v["op"] == "sbuf";
            ctx.case(v, move || if sb { run_sbuf(&v2) } else { run_str(&v2) });
        }
        return;
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n {
        let op = *r.pick(ops);
        let v = match op {
            "sbuf" => gen_sbuf(&mut r),
            "sec" => gen_str(&mut r, true),
            _ => gen_str(&mut r, false),
        };
        let v2 = v.clone();
        ctx.case(v, move || if op == "sbuf" { run_sbuf(&v2) } else { run_str(&v2) });
    }
}
