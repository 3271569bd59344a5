//! Copies the methods of /repo that wait for streams next to the simulator,
//! with `libc` and the clock redirected to it.

/// Top-level functions of a source file: name and text.
fn functions(s: &str) -> Vec<(String, String)> {
    let lines: Vec<&str> = s.lines().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let head = !l.starts_with([' ', '/', '#', '}']) && (l.starts_with("fn ") || l.contains(" fn ")) && !l.ends_with(';');
        if head {
            let mut j = i;
            while j < lines.len() && lines[j] != "}" && !(j == i && l.ends_with('}')) {
                j += 1;
            }
            let name = l[l.find("fn ").unwrap() + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>();
            out.push((name, lines[i..=j.min(lines.len() - 1)].join("\n")));
            i = j;
        }
        i += 1;
    }
    out
}

fn calls(text: &str, name: &str) -> bool {
    text.match_indices(name).any(|(i, _)| {
        let b = text[..i].chars().next_back();
        let a = text[i + name.len()..].chars().next();
        !b.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ':') && a == Some('(')
    })
}

/// The named functions and every function of the file they call.
fn closure(s: &str, names: &[&str]) -> String {
    let fns = functions(s);
    let mut take: Vec<usize> = names.iter().map(|n| fns.iter().position(|f| f.0 == *n).unwrap_or_else(|| panic!("no function {n}"))).collect();
    let mut k = 0;
    while k < take.len() {
        for (j, f) in fns.iter().enumerate() {
            if !take.contains(&j) && calls(&fns[take[k]].1, &f.0) {
                take.push(j);
            }
        }
        k += 1;
    }
    take.iter().map(|&i| format!("{}{}", if fns[i].1.starts_with("fn ") { "pub " } else { "" }, fns[i].1)).collect::<Vec<_>>().join("\n\n")
}

fn redirect(s: &str) -> String {
    let mut text = String::new();
    for (from, to) in [("libc::", "crate::simlibc::"), ("std::time::", "crate::simstd::time::")] {
        let src = if text.is_empty() { s.to_string() } else { std::mem::take(&mut text) };
        let mut rest = &src[..];
        while let Some(i) = rest.find(from) {
            let before = rest[..i].chars().next_back();
            text.push_str(&rest[..i]);
            text.push_str(if before.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == ':') { from } else { to });
            rest = &rest[i + from.len()..];
        }
        text.push_str(rest);
    }
    text
}

const NAMES: &[&str] = &["io_select", "io_wait", "io_wait_readable", "io_wait_writable", "io_wait_priority"];

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let f = "/repo/monoruby/src/builtins/io.rs";
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={f}");
    println!("cargo:rerun-if-changed=mirror");
    println!("cargo:rerun-if-env-changed=WAITSIM_MIRROR");
    let text = if std::env::var("WAITSIM_MIRROR").is_ok() { std::fs::read_to_string("mirror/io.rs").unwrap() } else { closure(&std::fs::read_to_string(f).unwrap(), NAMES) };
    std::fs::write(format!("{out}/io.rs"), redirect(&text)).unwrap();
}
