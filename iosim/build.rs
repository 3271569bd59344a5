//! Copies the stream modules of /repo next to the simulator, with `std` and
//! `libc` paths redirected to it.
use std::path::Path;

fn redirect(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 4096);
    for line in s.lines() {
        let mut rest = line;
        loop {
            let Some(i) = [rest.find("std::"), rest.find("libc::")].into_iter().flatten().min() else { break };
            let before = rest[..i].chars().next_back();
            let whole = !before.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == ':');
            let word = if rest[i..].starts_with("std::") { "std::" } else { "libc::" };
            out.push_str(&rest[..i]);
            if whole {
                out.push_str("crate::sim");
            }
            out.push_str(word);
            rest = &rest[i + word.len()..];
        }
        out.push_str(rest);
        out.push('\n');
    }
    out
}

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let src = "/repo/monoruby/src/value/rvalue";
    let o = Path::new(&out);
    for (from, to) in [("io.rs", "io.rs"), ("io/buf.rs", "buf.rs"), ("io/buf.rs", "rawbuf.rs")] {
        let f = format!("{src}/{from}");
        println!("cargo:rerun-if-changed={f}");
        let s = std::fs::read_to_string(&f).unwrap();
        std::fs::write(o.join(to), redirect(&s)).unwrap();
    }
    println!("cargo:rerun-if-changed=build.rs");
    std::fs::write(
        o.join("mods.rs"),
        format!("#[path = \"{out}/io.rs\"]\npub mod io;\n"),
    )
    .unwrap();
    std::fs::write(o.join("raw.rs"), format!("#[path = \"{out}/rawbuf.rs\"]\npub mod rawbuf;\n")).unwrap();
}
