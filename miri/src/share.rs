//! Strings sharing a buffer across threads: "str;HEX;n|s;own|ref;d|v;ops|ops" with ops k:i:n,...
use vinezombie::owning::MakeOwning;
use vinezombie::string::{Bytes, Splitter};

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn js(b: &[u8]) -> String {
    format!("{b:?}").replace(' ', "")
}
/// What is known of being UTF-8: nothing, that it is, that it is not.
fn lazy(b: &Bytes<'_>) -> u8 {
    match b.is_utf8_lazy() {
        None => 0,
        Some(true) => 1,
        Some(false) => 2,
    }
}
type Op = (char, usize, usize);
fn thread(first: Bytes<'static>, base: Option<&Bytes<'static>>, ops: &[Op]) -> String {
    let mut slots: Vec<Option<Bytes<'static>>> = vec![Some(first)];
    let mut log = vec![];
    for (k, i, n) in ops.iter().copied() {
        let r: Vec<u8> = match k {
            'R' => base.unwrap().as_bytes().to_vec(),
            'C' => {
                slots.push(base.cloned());
                vec![]
            }
            'U' => vec![base.unwrap().to_utf8().is_some() as u8],
            'L' => vec![lazy(base.unwrap())],
            'l' => vec![lazy(slots[i].as_ref().unwrap())],
            'c' => {
                let c = slots[i].clone();
                slots.push(c);
                vec![]
            }
            'd' => {
                slots[i] = None;
                vec![]
            }
            'r' => slots[i].as_ref().unwrap().as_bytes().to_vec(),
            'o' => {
                slots[i].as_mut().unwrap().make_owning();
                vec![]
            }
            'u' => vec![slots[i].as_ref().unwrap().to_utf8().is_some() as u8],
            'v' => {
                let mut v: Vec<u8> = slots[i].take().unwrap().into();
                let r = v.clone();
                v.fill(b'X');
                v.push(b'X');
                r
            }
            's' => {
                let mut sp = Splitter::new(slots[i].take().unwrap());
                let a: Bytes = sp.save_end().until_count(n).rest_or_default();
                slots[i] = Some(sp.rest_or_default());
                slots.push(Some(a));
                vec![]
            }
            _ => panic!("op {k}"),
        };
        log.push(js(&r));
    }
    format!("[{}]", log.join(","))
}
pub fn run(a: &str) {
    let p: Vec<&str> = a.split(';').collect();
    let (b, secret, by_ref, last) = (hex(p[1]), p[2] == "s", p[3] == "ref", p[4]);
    let progs: Vec<Vec<Op>> = p[5]
        .split('|')
        .map(|t| {
            t.split(',')
                .filter(|o| !o.is_empty())
                .map(|o| {
                    let f: Vec<&str> = o.split(':').collect();
                    (f[0].chars().next().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap())
                })
                .collect()
        })
        .collect();
    let mut s: Bytes<'static> = Bytes::from(b.clone());
    if secret {
        s = Bytes::from_secret(b.clone());
    }
    let mut logs = vec![];
    let fin: Vec<u8> = if by_ref {
        std::thread::scope(|sc| {
            let hs: Vec<_> = progs
                .iter()
                .map(|pr| {
                    let (h, base) = (s.clone(), &s);
                    sc.spawn(move || thread(h, Some(base), pr))
                })
                .collect();
            logs = hs.into_iter().map(|h| h.join().unwrap()).collect();
        });
        if last == "v" {
            s.into()
        } else {
            let r = s.as_bytes().to_vec();
            drop(s);
            r
        }
    } else {
        let first: Vec<Bytes<'static>> = progs.iter().map(|_| s.clone()).collect();
        drop(s);
        let hs: Vec<_> =
            progs.iter().cloned().zip(first).map(|(pr, h)| std::thread::spawn(move || thread(h, None, &pr))).collect();
        logs = hs.into_iter().map(|h| h.join().unwrap()).collect();
        b.clone()
    };
    let pj: Vec<String> = progs
        .iter()
        .map(|t| format!("[{}]", t.iter().map(|(k, i, n)| format!("{{\"k\":\"{k}\",\"i\":{},\"n\":{n}}}", i + 1)).collect::<Vec<_>>().join(",")))
        .collect();
    println!("{{\"op\":\"share\",\"b\":{},\"progs\":[{}],\"logs\":[{}],\"fin\":{},\"st\":\"ok\"}}", js(&b), pj.join(","), logs.join(","), js(&fin));
}
