//! Copies the channel sources of the crate under test, with `std::` pointing at the scheduled
//! stand-ins of `vstd`, so that every interleaving of their atomic steps can be run.
use std::{env, fs, path::Path};
fn main() {
    let repo = env::var("VREPO").unwrap_or_else(|_| "/repo".into());
    println!("cargo:rerun-if-env-changed=VREPO");
    let out = env::var("OUT_DIR").unwrap();
    let base = Path::new(&repo).join("src/client/handler");
    let dst = Path::new(&out).join("gen");
    let _ = fs::remove_dir_all(&dst);
    fs::create_dir_all(dst.join("channel")).unwrap();
    let mut files = vec!["channel.rs".to_string()];
    if let Ok(d) = fs::read_dir(base.join("channel")) {
        for e in d.flatten() {
            let n = e.file_name().into_string().unwrap();
            if n.ends_with(".rs") && n != "tests.rs" {
                files.push(format!("channel/{n}"));
            }
        }
    }
    println!("cargo:rerun-if-changed={}", base.join("channel").display());
    fs::write(Path::new(&out).join("gen_mod.rs"), format!("#[path = {:?}]\npub mod channel;\n", dst.join("channel/mod.rs"))).unwrap();
    for f in files {
        let p = base.join(&f);
        println!("cargo:rerun-if-changed={}", p.display());
        let s = fs::read_to_string(&p).unwrap();
        let to = if f == "channel.rs" { "channel/mod.rs" } else { f.as_str() };
        fs::write(dst.join(to), redirect(&s)).unwrap();
    }
}
/// Replaces the path prefixes `std::`/`::std::`/`core::`/`alloc::` outside of identifiers.
fn redirect(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let ident = |c: char| c.is_alphanumeric() || c == '_';
    while i < b.len() {
        let rest: String = b[i..b.len().min(i + 8)].iter().collect();
        let prev = if i == 0 { ' ' } else { b[i - 1] };
        let mut hit = false;
        for p in ["::std::", "::core::", "std::", "core::"] {
            if rest.starts_with(p) && !ident(prev) && prev != ':' {
                out.push_str("crate::vstd::");
                i += p.len();
                hit = true;
                break;
            }
        }
        if !hit {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
