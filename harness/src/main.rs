mod arena;
mod client;
mod core;
mod framing;
mod map;
mod modes;
mod msg;
mod queue;
mod auto;
mod reg;
mod serde;
mod strs;
mod views;
use crate::core::*;

#[global_allocator]
static WATCH: arena::Watch = arena::Watch;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let driver = a[1].clone();
    let out = get("--out").expect("--out");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = get("--n").and_then(|s| s.parse().ok()).unwrap_or(1000);
    let thorough = a.iter().any(|x| x == "--thorough");
    let input = get("--in").map(|p| {
        std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect()
    });
    install_hooks();
    let mut ctx = Ctx::new(&out, seed, n, thorough, input);
    match driver.as_str() {
        "msg-parse" => msg::record(&mut ctx, "parse"),
        "msg-build" | "msg-gen" => msg::record(&mut ctx, "build"),
        "framing" => framing::record(&mut ctx),
        "queue-rate" => queue::record(&mut ctx, false),
        "queue-edit" => queue::record(&mut ctx, true),
        "client" => client::record(&mut ctx, "any"),
        "client-time" => client::record(&mut ctx, "time"),
        "auto" => auto::record(&mut ctx),
        "reg" => reg::record(&mut ctx, &["reg"]),
        "sasl" => reg::record(&mut ctx, &["sasl", "sasl", "b64"]),
        "nick" => reg::record(&mut ctx, &["nick"]),
        "caps" => reg::record(&mut ctx, &["capreq", "defcaps"]),
        "str" => strs::record(&mut ctx, &["str"]),
        "sec" => strs::record(&mut ctx, &["sec"]),
        "sbuf" => strs::record(&mut ctx, &["sbuf"]),
        "modes" => modes::record(&mut ctx),
        "serde" => serde::record(&mut ctx),
        "views" => views::record(&mut ctx),
        "map" => map::record(&mut ctx),
        x => panic!("unknown driver {x}"),
    }
    ctx.finish();
}
