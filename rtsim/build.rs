//! Copies the thread runtime modules of /repo next to the simulator, with
//! `std` and `libc` paths redirected to it.
use std::path::Path;

fn redirect(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 4096);
    for line in s.lines() {
        // inner documentation has no place in an included file
        if line.starts_with("//!") {
            out.push('\n');
            continue;
        }
        let mut rest = line;
        loop {
            let Some(i) = [rest.find("std::"), rest.find("libc::")].into_iter().flatten().min() else { break };
            let before = rest[..i].chars().next_back();
            let whole = !before.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == ':');
            let word = if rest[i..].starts_with("std::") { "std::" } else { "libc::" };
            out.push_str(&rest[..i]);
            if whole {
                out.push_str("crate::sim");
            }
            out.push_str(word);
            rest = &rest[i + word.len()..];
        }
        out.push_str(rest);
        out.push('\n');
    }
    out.replace("\nthread_local! {", "\ncrate::sim_thread_local! {")
}

/// Top-level functions of a source file: name and text.
fn functions(s: &str) -> Vec<(String, String)> {
    let lines: Vec<&str> = s.lines().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let head = !l.starts_with(' ')
            && (l.starts_with("fn ")
                || l.starts_with("pub fn ")
                || l.starts_with("pub(crate) fn ")
                || l.starts_with("unsafe fn ")
                || l.contains("extern \"C\" fn "));
        if head {
            let mut j = i;
            while j < lines.len() && lines[j] != "}" {
                j += 1;
            }
            let name = l[l.find("fn ").unwrap() + 3..]
                .chars()
                .take_while(|c| c.is_alphanumeric() || *c == '_')
                .collect::<String>();
            out.push((name, lines[i..=j.min(lines.len() - 1)].join("\n")));
            i = j;
        }
        i += 1;
    }
    out
}

fn calls(text: &str, name: &str) -> bool {
    text.match_indices(name).any(|(i, _)| {
        let b = text[..i].chars().next_back();
        let a = text[i + name.len()..].chars().next();
        !b.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ':') && a == Some('(')
    })
}

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let repo = "/repo/monoruby";
    let src = &format!("{repo}/src");
    let o = Path::new(&out);
    for (from, to) in [
        ("scheduler.rs", "scheduler.rs"),
        ("poll_flag.rs", "poll_flag.rs"),
        ("preempt.rs", "preempt.rs"),
        ("watchdog.rs", "watchdog.rs"),
        ("native_pool.rs", "native_pool.rs"),
        ("codegen/signal_table.rs", "signal_table.rs"),
        ("value/rvalue/thread.rs", "thread.rs"),
    ] {
        let f = format!("{src}/{from}");
        println!("cargo:rerun-if-changed={f}");
        let s = std::fs::read_to_string(&f).unwrap();
        std::fs::write(o.join(to), redirect(&s)).unwrap();
    }
    for lib in ["thread.rb", "monitor.rb"] {
        let f = format!("{repo}/builtins/{lib}");
        println!("cargo:rerun-if-changed={f}");
        std::fs::copy(&f, o.join(lib)).unwrap();
    }
    let f = format!("{src}/executor.rs");
    println!("cargo:rerun-if-changed={f}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=safepoint.rs");
    println!("cargo:rerun-if-env-changed=RTSIM_MIRROR");
    let s = std::fs::read_to_string(&f).unwrap();
    let fns = functions(&s);
    let mut take = vec![];
    if std::env::var_os("RTSIM_MIRROR").is_none()
        && let Some(i) = fns.iter().position(|f| f.0 == "execute_gc")
    {
        take.push(i);
        let mut k = 0;
        while k < take.len() {
            for (j, f) in fns.iter().enumerate() {
                if !take.contains(&j) && calls(&fns[take[k]].1, &f.0) {
                    take.push(j);
                }
            }
            k += 1;
        }
    }
    let text = if take.is_empty() {
        println!("cargo:warning=using the mirrored safepoint");
        std::fs::read_to_string("safepoint.rs").unwrap()
    } else {
        take.iter().map(|&i| fns[i].1.clone()).collect::<Vec<_>>().join("\n\n")
    };
    std::fs::write(o.join("safepoint.rs"), redirect(&text)).unwrap();
    let mut mods = String::new();
    for m in ["scheduler", "poll_flag", "preempt", "watchdog", "native_pool"] {
        mods += &format!("#[path = \"{out}/{m}.rs\"]\n#[allow(dead_code)]\npub mod {m};\n");
    }
    std::fs::write(o.join("mods.rs"), mods).unwrap();
    std::fs::write(o.join("thread_mod.rs"), format!("#[path = \"{out}/thread.rs\"]\npub mod thread;\n")).unwrap();
    std::fs::write(o.join("sig_mod.rs"), format!("#[path = \"{out}/signal_table.rs\"]\npub mod signal_table;\n")).unwrap();
}
