//! Copies the collector, the object cells and the hash table code of /repo
//! into two module trees: `full` with the real page and threshold sizes and
//! `small` with sizes scaled down, so that page and generation boundaries
//! are met often.
use std::path::Path;

const SRC: &str = "/repo/monoruby/src";

fn read(f: &str) -> String {
    let f = format!("{SRC}/{f}");
    println!("cargo:rerun-if-changed={f}");
    std::fs::read_to_string(&f).unwrap()
}

/// Everything before a test module at top level.
fn no_tests(s: &str) -> String {
    let mut out = String::new();
    let mut lines = s.lines().peekable();
    while let Some(l) = lines.next() {
        if l.starts_with("//!") {
            out.push('\n');
            continue;
        }
        if l.trim_start().starts_with("#[coverage(") || l == "#[global_allocator]" {
            continue;
        }
        if l == "#[cfg(test)]" && lines.peek().is_some_and(|n| n.starts_with("mod ")) {
            for l in lines.by_ref() {
                if l == "}" {
                    break;
                }
            }
            continue;
        }
        out.push_str(l);
        out.push('\n');
    }
    out
}

struct Item {
    head: String,
    text: String,
}

/// Items at one indentation level.
fn items(s: &str, indent: usize) -> Vec<Item> {
    let pad = " ".repeat(indent);
    let lines: Vec<&str> = s.lines().collect();
    let mut out = vec![];
    let mut attrs: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.strip_prefix(&pad).unwrap_or("");
        if t.is_empty() || t.starts_with("//") || t.starts_with(' ') || t.starts_with('}') {
            i += 1;
            continue;
        }
        if t.starts_with("/*") {
            while i < lines.len() && !lines[i].contains("*/") {
                i += 1;
            }
            i += 1;
            continue;
        }
        if t.starts_with("#[") {
            attrs.push(l.to_string());
            i += 1;
            continue;
        }
        let mut j = i;
        let close = format!("{pad}}}");
        if !l.trim_end().ends_with(';') && !(l.trim_end().ends_with('}') && l.contains('{')) {
            loop {
                j += 1;
                if j >= lines.len() {
                    break;
                }
                let e = lines[j];
                if e == close || e == format!("{close};") {
                    break;
                }
                // a statement-like item spread over lines
                if e.trim_end().ends_with(';') && !t.contains('{') && t.starts_with(|c: char| c.is_alphabetic()) && !t.contains("fn ") && !t.contains("impl") {
                    break;
                }
            }
        }
        let mut text = attrs.join("\n");
        if !text.is_empty() {
            text.push('\n');
        }
        text.push_str(&lines[i..=j.min(lines.len() - 1)].join("\n"));
        out.push(Item { head: t.to_string(), text });
        attrs.clear();
        i = j + 1;
    }
    out
}

fn fn_name(head: &str) -> Option<String> {
    let i = head.find("fn ")?;
    let before = &head[..i];
    if !before.split_whitespace().all(|w| {
        w.starts_with("pub") || ["unsafe", "const", "extern", "\"C\"", "in", "crate)"].contains(&w)
    }) {
        return None;
    }
    Some(head[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect())
}

fn word(text: &str, name: &str) -> bool {
    text.match_indices(name).any(|(i, _)| {
        let b = text[..i].chars().next_back();
        let a = text[i + name.len()..].chars().next();
        !b.is_some_and(|c| c.is_alphanumeric() || c == '_') && !a.is_some_and(|c| c.is_alphanumeric() || c == '_')
    })
}

fn called(text: &str, name: &str) -> bool {
    text.match_indices(name).any(|(i, _)| {
        let b = text[..i].chars().next_back();
        let a = text[i + name.len()..].chars().next();
        !b.is_some_and(|c| c.is_alphanumeric() || c == '_') && matches!(a, Some('(') | Some(')') | Some(',') | Some(';'))
    })
}

/// The cell definition: header, payload union, marking, freeing, aging,
/// barriers, copying.
fn cells(src: &str, users: &str) -> String {
    let src = no_tests(src);
    let all = items(&src, 0);
    let mut out = String::new();
    let mut text = users.to_string();
    let whole = |h: &str| {
        h.starts_with("pub struct ObjTy")
            || h.starts_with("impl std::fmt::Debug for ObjTy")
            || h.starts_with("impl ObjTy")
            || h.starts_with("pub union ObjKind")
            || h.contains("struct FrameInner")
            || h.starts_with("impl FrameInner")
            || h.starts_with("pub struct RValue")
            || h.starts_with("impl PartialEq for RValue")
            || h.starts_with("impl alloc::GC<RValue> for RValue")
            || h.starts_with("impl alloc::GCBox for RValue")
            || h.starts_with("union Header")
            || h.starts_with("struct Metadata")
            || h.starts_with("impl Header")
    };
    for it in &all {
        if whole(&it.head) {
            out.push_str(&it.text);
            out.push_str("\n\n");
            text.push_str(&it.text);
        }
    }
    // constants
    let consts: Vec<&Item> = all
        .iter()
        .filter(|i| (i.head.starts_with("const ") || i.head.starts_with("pub const ")) && !i.text.contains("smallvec::"))
        .collect();
    for c in &consts {
        out.push_str(&c.text);
        out.push_str("\n\n");
    }
    // methods and functions by name, transitively
    let deny = ["fmt", "debug", "to_s", "inspect", "deep_copy", "eq", "unpack", "real_class", "get_class_obj", "get_ivar", "get_ivars", "dead_rvalue_abort"];
    let mut methods: Vec<(bool, String, String)> = vec![];
    for it in &all {
        let kind = if it.head.starts_with("impl RValue {") {
            true
        } else if it.head.starts_with("impl ObjKind {") {
            false
        } else {
            continue;
        };
        let body: String = {
            let a = it.text.find("{\n").unwrap() + 2;
            it.text[a..].to_string()
        };
        for m in items(&body, 4) {
            if let Some(n) = fn_name(&m.head) {
                methods.push((kind, n, m.text));
            }
        }
    }
    let fns: Vec<(String, String)> =
        all.iter().filter_map(|i| fn_name(&i.head).map(|n| (n, i.text.clone()))).collect();
    let mut mt = vec![false; methods.len()];
    let mut ft = vec![false; fns.len()];
    loop {
        let mut more = false;
        for (i, (k, n, t)) in methods.iter().enumerate() {
            let used = if *k { called_plain(&text, n) } else { called(&text, &format!("ObjKind::{n}")) };
            if !mt[i] && !deny.contains(&n.as_str()) && used {
                mt[i] = true;
                text.push_str(t);
                more = true;
            }
        }
        for (i, (n, t)) in fns.iter().enumerate() {
            if !ft[i] && !deny.contains(&n.as_str()) && called(&text, n) {
                ft[i] = true;
                text.push_str(t);
                more = true;
            }
        }
        if !more {
            break;
        }
    }
    for (kind, ty) in [(true, "RValue"), (false, "ObjKind")] {
        out.push_str(&format!("impl {ty} {{\n"));
        for (i, (k, _, t)) in methods.iter().enumerate() {
            if mt[i] && *k == kind {
                out.push_str(t);
                out.push_str("\n\n");
            }
        }
        out.push_str("}\n\n");
    }
    for (i, (_, t)) in fns.iter().enumerate() {
        if ft[i] {
            out.push_str(t);
            out.push_str("\n\n");
        }
    }
    out
}

fn called_plain(text: &str, n: &str) -> bool {
    text.contains(&format!(".{n}(")) || text.contains(&format!("RValue::{n}(")) || text.contains(&format!("Self::{n}("))
}

/// The Hash methods and what they call.
fn natives(src: &str) -> String {
    let want = [
        "index_assign", "index", "delete", "shift", "clear", "replace", "clone", "dup_table", "compare_by_identity",
        "compare_by_identity_", "select", "select_", "keep_if", "delete_if", "reject", "reject_", "merge", "merge_",
        "key", "assoc", "rassoc", "invert", "values_at", "fetch", "eq", "eql", "hash", "lt", "le", "gt", "ge",
        "include", "size", "empty_", "keys", "values", "pairs", "default", "default_assign", "default_proc",
        "set_value_at", "iter_begin", "iter_end", "key_at", "value_at", "entry_count", "live_at", "to_h",
        "get_or_key", "each",
    ];
    let src = no_tests(src);
    let all: Vec<(String, String)> = items(&src, 0)
        .into_iter()
        .filter_map(|i| {
            let n = fn_name(&i.head)?;
            let t = i.text.lines().filter(|l| !l.starts_with("#[")).collect::<Vec<_>>().join("\n");
            Some((n, t))
        })
        .collect();
    let mut take: Vec<usize> = vec![];
    for w in want {
        let i = all.iter().position(|f| f.0 == w).unwrap_or_else(|| panic!("no function {w} in builtins/hash.rs"));
        take.push(i);
    }
    let mut k = 0;
    while k < take.len() {
        for (j, f) in all.iter().enumerate() {
            if !take.contains(&j) && plain_call(&all[take[k]].1, &f.0) {
                take.push(j);
            }
        }
        k += 1;
    }
    let mut out = String::from("use crate::*;\n\n");
    for i in take {
        let t = &all[i].1;
        let t = if t.starts_with("fn ") { format!("pub {t}") } else { t.clone() };
        out.push_str(&t);
        out.push_str("\n\n");
    }
    out
}

fn plain_call(text: &str, name: &str) -> bool {
    text.match_indices(name).any(|(i, _)| {
        let b = text[..i].chars().next_back();
        let a = text[i + name.len()..].chars().next();
        !b.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ':') && a == Some('(')
    })
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=tree");
    println!("cargo:rerun-if-changed=mirror");
    println!("cargo:rerun-if-env-changed=HEAPSIM_MIRROR");
    let mirror = std::env::var_os("HEAPSIM_MIRROR").is_some();
    let out = std::env::var("OUT_DIR").unwrap();
    let tree = |f: &str| std::fs::read_to_string(format!("tree/{f}")).unwrap();

    let alloc = no_tests(&read("alloc.rs"));
    let poll = no_tests(&read("poll_flag.rs"));
    let hash = no_tests(&read("value/rvalue/hash.rs"));
    let rvalue = read("value/rvalue.rs");
    let natives_src = read("builtins/hash.rs");
    let users = [&hash, &alloc, &tree("rvalue_head.rs"), &tree("value.rs"), &tree("gc.rs"), &tree("rhash.rs")].map(|s| s.as_str()).join("\n");
    let (cells, natives) = if mirror {
        (
            std::fs::read_to_string("mirror/cells.rs").unwrap(),
            std::fs::read_to_string("mirror/natives.rs").unwrap(),
        )
    } else {
        (cells(&rvalue, &users), natives(&natives_src))
    };
    std::fs::write(Path::new(&out).join("cells.rs"), &cells).unwrap();
    std::fs::write(Path::new(&out).join("natives.rs"), &natives).unwrap();

    let sys = |s: &str| {
        s.replace("std::alloc::{GlobalAlloc, Layout, System}", "ROOT::sys::{GlobalAlloc, Layout, System}")
            .replace("std::time::Instant", "ROOT::sys::Instant")
            .replace("std::env::", "ROOT::sys::env::")
            .replace("std::process::abort", "ROOT::sys::process_abort")
    };
    let mut trees = String::new();
    for name in ["small", "full"] {
        let d = Path::new(&out).join(name);
        std::fs::create_dir_all(d.join("value/rvalue")).unwrap();
        let put = |f: &str, s: &str| {
            let s = s.replace("crate::", &format!("crate::{name}::")).replace("ROOT::", "crate::");
            let p = d.join(f);
            if std::fs::read_to_string(&p).ok().as_deref() != Some(&s) {
                std::fs::write(p, s).unwrap();
            }
        };
        let mut a = sys(&alloc).replace("crate::RValue", "crate::value::RValue");
        if name == "small" {
            for (from, to) in [
                ("const SIZE: usize = 64;", "const SIZE: usize = 4;"),
                ("const OLD_OBJECT_FLOOR: usize = 16384;", "const OLD_OBJECT_FLOOR: usize = 64;"),
                ("const MAX_MINORS_PER_MAJOR: usize = 64;", "const MAX_MINORS_PER_MAJOR: usize = 8;"),
            ] {
                a = a.replace(from, to);
            }
        }
        put("alloc.rs", &a);
        put("poll_flag.rs", &poll);
        put("value/rvalue/hash.rs", &&hash.replace("RubyMap::with_capacity(", "crate::value::map_with_capacity("));
        put("value/rvalue.rs", &format!("{}\n{cells}", tree("rvalue_head.rs")));
        put("natives.rs", &natives);
        put("mod.rs", &tree("mod.rs"));
        put("value.rs", &tree("value.rs"));
        put("gc.rs", &tree("gc.rs"));
        put("rhash.rs", &tree("rhash.rs"));
        trees += &format!("#[path = \"{out}/{name}/mod.rs\"]\n#[allow(warnings)]\npub mod {name};\n");
    }
    std::fs::write(Path::new(&out).join("trees.rs"), trees).unwrap();
    let _ = word;
}
