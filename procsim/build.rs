//! Copies the process start module of /repo next to the simulator, with
//! `libc` paths redirected to it.

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let f = "/repo/monoruby/src/builtins/spawn.rs";
    println!("cargo:rerun-if-changed={f}");
    println!("cargo:rerun-if-changed=build.rs");
    let s = std::fs::read_to_string(f).unwrap();
    let mut text = String::new();
    let mut lines = s.lines().peekable();
    while let Some(l) = lines.next() {
        if l == "#[cfg(test)]" && lines.peek().is_some_and(|n| n.starts_with("mod ")) {
            for l in lines.by_ref() {
                if l == "}" {
                    break;
                }
            }
            continue;
        }
        let mut rest = l;
        while let Some(i) = rest.find("libc::") {
            let before = rest[..i].chars().next_back();
            text.push_str(&rest[..i]);
            if !before.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == ':') {
                text.push_str("crate::sim");
            }
            text.push_str("libc::");
            rest = &rest[i + 6..];
        }
        text.push_str(rest);
        text.push('\n');
    }
    std::fs::write(format!("{out}/spawn.rs"), text).unwrap();
    std::fs::write(format!("{out}/mods.rs"), format!("#[path = \"{out}/spawn.rs\"]\npub mod spawn;\n")).unwrap();
}
