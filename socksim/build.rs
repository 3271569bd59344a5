//! Copies the socket module of /repo next to the simulator, with `libc`,
//! the clock and files redirected to it, and the two functions of other
//! modules it waits and closes through.

/// Top-level functions of a source file: name and text.
fn functions(s: &str) -> Vec<(String, String)> {
    let lines: Vec<&str> = s.lines().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let head = !l.starts_with([' ', '/', '#', '}']) && (l.starts_with("fn ") || l.contains(" fn ")) && !l.ends_with(';');
        if head {
            let mut j = i;
            while j < lines.len() && lines[j] != "}" && !(j == i && l.ends_with('}')) {
                j += 1;
            }
            let name = l[l.find("fn ").unwrap() + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>();
            out.push((name, lines[i..=j.min(lines.len() - 1)].join("\n")));
            i = j;
        }
        i += 1;
    }
    out
}

fn calls(text: &str, name: &str) -> bool {
    text.match_indices(name).any(|(i, _)| {
        let b = text[..i].chars().next_back();
        let a = text[i + name.len()..].chars().next();
        !b.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ':') && a == Some('(')
    })
}

/// The named function and every function of the file it calls.
fn closure(s: &str, name: &str) -> String {
    let fns = functions(s);
    let mut take = vec![fns.iter().position(|f| f.0 == name).unwrap_or_else(|| panic!("no function {name}"))];
    let mut k = 0;
    while k < take.len() {
        for (j, f) in fns.iter().enumerate() {
            if !take.contains(&j) && calls(&fns[take[k]].1, &f.0) {
                take.push(j);
            }
        }
        k += 1;
    }
    take.iter().map(|&i| fns[i].1.clone()).collect::<Vec<_>>().join("\n\n")
}

fn redirect(s: &str) -> String {
    let mut text = String::new();
    for (from, to) in [("libc::", "crate::simlibc::"), ("std::time::", "crate::simstd::time::"), ("std::fs::", "crate::simstd::fs::")] {
        let src = if text.is_empty() { s.to_string() } else { std::mem::take(&mut text) };
        let mut rest = &src[..];
        while let Some(i) = rest.find(from) {
            let before = rest[..i].chars().next_back();
            text.push_str(&rest[..i]);
            text.push_str(if before.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == ':') { from } else { to });
            rest = &rest[i + from.len()..];
        }
        text.push_str(rest);
    }
    text
}

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let src = "/repo/monoruby/src/builtins";
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=mirror");
    println!("cargo:rerun-if-env-changed=SOCKSIM_MIRROR");
    let mirror = std::env::var("SOCKSIM_MIRROR").is_ok();
    let read = |f: &str| {
        let f = format!("{src}/{f}");
        println!("cargo:rerun-if-changed={f}");
        std::fs::read_to_string(&f).unwrap()
    };
    let s = read("socket.rs");
    let mut text = String::new();
    let mut lines = s.lines().peekable();
    while let Some(l) = lines.next() {
        let test = l == "#[cfg(test)]" && lines.peek().is_some_and(|n| n.starts_with("mod "));
        if test || l.starts_with("pub(super) fn init(") || l.starts_with("pub(crate) fn init(") || l.starts_with("pub fn init(") {
            for l in lines.by_ref() {
                if l == "}" {
                    break;
                }
            }
            continue;
        }
        if l.trim() == "#[monoruby_builtin]" {
            continue;
        }
        text.push_str(if l.starts_with("fn ") { "pub " } else { "" });
        text.push_str(l);
        text.push('\n');
    }
    std::fs::write(format!("{out}/socket.rs"), redirect(&text)).unwrap();
    for (f, name) in [("io.rs", "wait_fd_single"), ("file.rs", "block_close")] {
        let text = if mirror { std::fs::read_to_string(format!("mirror/{f}")).unwrap() } else { closure(&read(f), name) };
        std::fs::write(format!("{out}/{f}"), redirect(&text)).unwrap();
    }
    std::fs::write(format!("{out}/mods.rs"), format!("#[path = \"{out}/socket.rs\"]\npub mod socket;\n")).unwrap();
}
