//! Copies the fiber code of /repo next to the simulator: the fiber objects
//! whole, the native methods and the executor's fiber part function by
//! function.

/// Top-level functions of a source file: name and text.
fn functions(s: &str) -> Vec<(String, String)> {
    let lines: Vec<&str> = s.lines().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let head = !l.starts_with([' ', '/', '#', '}'])
            && (l.starts_with("fn ") || l.contains(" fn "))
            && !l.ends_with(';');
        if head {
            let mut j = i;
            while j < lines.len() && lines[j] != "}" && !(j == i && l.ends_with('}')) {
                j += 1;
            }
            let name = l[l.find("fn ").unwrap() + 3..]
                .chars()
                .take_while(|c| c.is_alphanumeric() || *c == '_')
                .collect::<String>();
            out.push((name, lines[i..=j.min(lines.len() - 1)].join("\n")));
            i = j;
        }
        i += 1;
    }
    out
}

fn calls(text: &str, name: &str) -> bool {
    text.match_indices(name).any(|(i, _)| {
        let b = text[..i].chars().next_back();
        let a = text[i + name.len()..].chars().next();
        !b.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ':') && a == Some('(')
    })
}

/// The named functions and every function of the file they call.
fn closure(s: &str, names: &[&str]) -> String {
    let fns = functions(s);
    let mut take: Vec<usize> = names
        .iter()
        .map(|n| fns.iter().position(|f| f.0 == *n).unwrap_or_else(|| panic!("no function {n}")))
        .collect();
    let mut k = 0;
    while k < take.len() {
        for (j, f) in fns.iter().enumerate() {
            if !take.contains(&j) && calls(&fns[take[k]].1, &f.0) {
                take.push(j);
            }
        }
        k += 1;
    }
    take.iter().map(|&i| fns[i].1.clone()).collect::<Vec<_>>().join("\n\n")
}

/// The `impl Executor` blocks that define one of the named methods.
fn impls(s: &str, names: &[&str]) -> String {
    let lines: Vec<&str> = s.lines().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < lines.len() {
        if lines[i] == "impl Executor {" {
            let mut j = i;
            while lines[j] != "}" {
                j += 1;
            }
            let text = lines[i..=j].join("\n");
            if names.iter().any(|n| text.contains(&format!("fn {n}("))) {
                out += &text;
                out += "\n\n";
            }
            i = j;
        }
        i += 1;
    }
    out
}

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let src = "/repo/monoruby/src";
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=mirror");
    println!("cargo:rerun-if-env-changed=FIBERSIM_MIRROR");
    let mirror = std::env::var("FIBERSIM_MIRROR").unwrap_or_default();
    let write = |f: &str, text: String| {
        let text = if mirror.split(',').any(|m| m == f) {
            std::fs::read_to_string(format!("mirror/{f}.rs")).unwrap()
        } else {
            text
        };
        std::fs::write(format!("{out}/{f}.rs"), text).unwrap();
    };
    let read = |f: &str| {
        let f = format!("{src}/{f}");
        println!("cargo:rerun-if-changed={f}");
        std::fs::read_to_string(&f).unwrap()
    };
    let objects = read("value/rvalue/fiber.rs").replace("#[monoruby_object]", "#[repr(transparent)]\n#[derive(Debug, Clone, Copy)]");
    // stacks come from the simulator
    let objects = objects.replace("libc::mprotect", "crate::mem::mprotect").replace("std::alloc::", "crate::mem::");
    let objects = objects
        + "
impl std::ops::Deref for Fiber {
    type Target = FiberInner;
    fn deref(&self) -> &FiberInner { self.0.fiber_inner() }
}
impl std::ops::DerefMut for Fiber {
    fn deref_mut(&mut self) -> &mut FiberInner { self.0.fiber_inner() }
}
";
    write("fiber", objects);
    let s = read("builtins/fiber.rs");
    let methods = closure(&s, &["current", "fiber_new", "fiber_yield", "resume", "transfer", "alive_p", "kill", "fiber_raise",
        "blocking_p", "class_blocking_p", "class_blocking", "class_storage_get", "class_storage_set", "storage_get", "storage_set"]);
    let consts: Vec<&str> = s.lines().filter(|l| l.starts_with("const ") && l.ends_with(';')).collect();
    let methods = methods.lines().map(|l| if l.starts_with("fn ") { format!("pub {l}\n") } else { format!("{l}\n") }).collect::<String>();
    write("methods", format!("use super::*;\nuse crate::*;\n{}\n\n{methods}", consts.join("\n")));
    // enumerators
    let enums = read("value/rvalue/enumerator.rs").replace("#[monoruby_object]", "#[repr(transparent)]\n#[derive(Debug, Clone, Copy)]");
    let mut enums = enums;
    for t in ["Enumerator", "Generator"] {
        let l = t.to_lowercase();
        enums += &format!(
            "
impl std::ops::Deref for {t} {{
    type Target = {t}Inner;
    fn deref(&self) -> &{t}Inner {{ self.0.{l}_inner() }}
}}
impl std::ops::DerefMut for {t} {{
    fn deref_mut(&mut self) -> &mut {t}Inner {{ self.0.{l}_inner() }}
}}
impl From<{t}> for Value {{
    fn from(e: {t}) -> Value {{ e.0 }}
}}
"
        );
    }
    write("enumerator", enums);
    let s = read("builtins/enumerator.rs");
    let m = closure(&s, &["next", "next_values", "peek", "peek_values", "rewind", "feed"]);
    let m = m + &closure(&read("globals/store/function.rs"), &["enum_yielder", "yielder"]);
    let m = m.lines().map(|l| if l.starts_with("fn ") { format!("pub {l}\n") } else { format!("{l}\n") }).collect::<String>();
    write("enum_methods", format!("use super::*;\nuse crate::*;\n{m}"));
    let s = read("executor.rs");
    let part = impls(&s, &["fiber_state", "yield_fiber"]);
    let fns = functions(&s);
    let mut names = vec!["fiber_on_terminate"];
    names.extend(fns.iter().filter(|f| calls(&part, &f.0)).map(|f| f.0.as_str()));
    names.dedup();
    let exec = part + &closure(&s, &names);
    write("executor", exec);
    std::fs::write(
        format!("{out}/mods.rs"),
        format!("#[path = \"{out}/fiber.rs\"]\npub mod fiber;\n#[path = \"{out}/enumerator.rs\"]\npub mod enumerator;\n"),
    )
    .unwrap();
    std::fs::write(
        format!("{out}/meth_mod.rs"),
        format!("#[path = \"{out}/methods.rs\"]\npub mod methods;\n#[path = \"{out}/enum_methods.rs\"]\npub mod enum_methods;\n"),
    )
    .unwrap();
}
