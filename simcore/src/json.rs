//! Just enough JSON.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum Json {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

impl Json {
    pub fn s(v: impl Into<String>) -> Json {
        Json::Str(v.into())
    }
    pub fn obj(v: Vec<(&str, Json)>) -> Json {
        Json::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn counts<K: ToString>(m: &BTreeMap<K, u64>) -> Json {
        Json::Obj(
            m.iter()
                .map(|(k, v)| (k.to_string(), Json::Int(*v as i128)))
                .collect(),
        )
    }
    pub fn get(&self, key: &str) -> Option<&Json> {
        match self {
            Json::Obj(v) => v.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Json::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_int(&self) -> Option<i128> {
        match self {
            Json::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn as_arr(&self) -> Option<&[Json]> {
        match self {
            Json::Arr(v) => Some(v),
            _ => None,
        }
    }

    pub fn render(&self, out: &mut String, ind: usize) {
        match self {
            Json::Null => out.push_str("null"),
            Json::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Json::Int(i) => out.push_str(&i.to_string()),
            Json::Num(f) => out.push_str(&format!("{f:.3}")),
            Json::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            Json::Arr(v) => {
                let flat = v.iter().all(|x| matches!(x, Json::Int(_)));
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.render(out, ind + 1);
                }
                out.push(']');
            }
            Json::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&" ".repeat(ind + 1));
                    Json::s(k.clone()).render(out, 0);
                    out.push_str(": ");
                    x.render(out, ind + 1);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(s: &str) -> Option<Json> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        Some(v)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> Option<Json> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(Json::Obj(v));
                }
                if *b.get(*p)? == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p)?;
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                v.push((k, val(b, p)?));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b']' {
                    *p += 1;
                    return Some(Json::Arr(v));
                }
                if *b.get(*p)? == b',' {
                    *p += 1;
                    continue;
                }
                v.push(val(b, p)?);
            }
        }
        b'"' => Some(Json::Str(string(b, p)?)),
        b't' => {
            *p += 4;
            Some(Json::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(Json::Bool(false))
        }
        b'n' => {
            *p += 4;
            Some(Json::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).ok()?;
            if let Ok(i) = t.parse::<i128>() {
                Some(Json::Int(i))
            } else {
                t.parse().ok().map(Json::Num)
            }
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> Option<String> {
    if *b.get(*p)? != b'"' {
        return None;
    }
    *p += 1;
    let mut out = vec![];
    loop {
        match *b.get(*p)? {
            b'"' => {
                *p += 1;
                return String::from_utf8(out).ok();
            }
            b'\\' => {
                *p += 1;
                match *b.get(*p)? {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'u' => {
                        let h = std::str::from_utf8(b.get(*p + 1..*p + 5)?).ok()?;
                        let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                        let mut buf = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                        *p += 4;
                    }
                    c => out.push(c),
                }
                *p += 1;
            }
            c => {
                out.push(c);
                *p += 1;
            }
        }
    }
}
