//! Reader for the Ruby subset the interpreter's thread library is written in.
use std::cell::RefCell;
use std::collections::HashSet;

pub type S = &'static str;

pub fn intern(s: &str) -> S {
    thread_local!(static T: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()));
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.insert(x);
        x
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(S),
    Const(S),
    IVar(S),
    GVar(S),
    CVar(S),
    Int(i64),
    Flt(f64),
    Str(Vec<Part>),
    Sym(S),
    Words(Vec<S>, bool),
    Label(S),
    Op(S),
    Kw(S),
    Nl,
    Eof,
    Bad,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    S(String),
    Code(String),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub line: u32,
    pub col: u32,
    pub sp: bool,
}

const KW: &[&str] = &[
    "alias", "and", "begin", "break", "case", "class", "def", "defined?", "do", "else", "elsif", "end", "ensure", "false", "for", "if", "in",
    "module", "next", "nil", "not", "or", "redo", "rescue", "retry", "return", "self", "super", "then", "true", "undef", "unless", "until",
    "when", "while", "yield", "__method__",
];

const OPS: &[&str] = &[
    "**=", "<=>", "===", "...", "<<=", ">>=", "&&=", "||=", "&.", "**", "==", "!=", ">=", "<=", "&&", "||", "=~", "!~", "..", "::", "+=", "-=",
    "*=", "/=", "%=", "|=", "&=", "^=", "<<", ">>", "->", "=>", "+", "-", "*", "/", "%", "=", "<", ">", "!", "&", "|", "^", "~", "?", ":", ",",
    ".", "(", ")", "[", "]", "{", "}", ";",
];

/// Whether a token can end an operand.
fn ends_value(t: &T) -> bool {
    match t {
        T::Id(_) | T::Const(_) | T::IVar(_) | T::GVar(_) | T::CVar(_) | T::Int(_) | T::Flt(_) | T::Str(_) | T::Sym(_) | T::Words(..) => true,
        T::Kw(k) => matches!(*k, "end" | "self" | "nil" | "true" | "false" | "super" | "yield" | "__method__"),
        T::Op(o) => matches!(*o, ")" | "]" | "}"),
        _ => false,
    }
}

pub fn lex(src: &str) -> Vec<Tok> {
    let b: Vec<char> = src.chars().collect();
    let mut out: Vec<Tok> = vec![];
    let (mut i, mut line, mut bol) = (0usize, 1u32, 0usize);
    let mut sp = true;
    let idc = |c: char| c.is_alphanumeric() || c == '_' || !c.is_ascii();
    macro_rules! push {
        ($t:expr, $at:expr) => {{
            let t = $t;
            out.push(Tok { t, line, col: ($at - bol) as u32, sp });
            sp = false;
        }};
    }
    while i < b.len() {
        let c = b[i];
        let prev = out.last().map(|t| t.t.clone()).unwrap_or(T::Nl);
        let after_dot = matches!(prev, T::Op("." | "&.")) || prev == T::Kw("def");
        let val = !ends_value(&prev) && !after_dot;
        // an identifier followed by a space may be a command call
        let cmd = matches!(prev, T::Id(_)) && sp && b.get(i + 1).is_some_and(|c| !c.is_whitespace());
        if c == '\n' {
            push!(T::Nl, i);
            i += 1;
            line += 1;
            bol = i;
            sp = true;
            let l: String = b[i..].iter().take(7).collect();
            if l.starts_with("=begin") {
                while i < b.len() {
                    let e = b[i..].iter().position(|c| *c == '\n').map_or(b.len(), |k| i + k + 1);
                    let end = b[i..e].iter().collect::<String>().starts_with("=end");
                    i = e;
                    line += 1;
                    bol = i;
                    if end {
                        break;
                    }
                }
            } else if l.starts_with("__END__") {
                break;
            }
            continue;
        }
        if c.is_whitespace() {
            sp = true;
            i += 1;
            continue;
        }
        if c == '\\' && b.get(i + 1) == Some(&'\n') {
            i += 2;
            line += 1;
            bol = i;
            sp = true;
            continue;
        }
        if c == '#' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            continue;
        }
        let st = i;
        if c.is_ascii_digit() {
            let mut s = String::new();
            let mut flt = false;
            if c == '0' && matches!(b.get(i + 1), Some('x' | 'b' | 'o')) {
                let radix = match b[i + 1] {
                    'x' => 16,
                    'b' => 2,
                    _ => 8,
                };
                i += 2;
                while i < b.len() && (b[i].is_ascii_hexdigit() || b[i] == '_') {
                    s.push(b[i]);
                    i += 1;
                }
                push!(i64::from_str_radix(&s.replace('_', ""), radix).map_or(T::Bad, T::Int), st);
                continue;
            }
            while i < b.len() {
                let d = b[i];
                if d.is_ascii_digit() {
                    s.push(d);
                } else if d == '_' {
                } else if d == '.' && !flt && b.get(i + 1).is_some_and(|x| x.is_ascii_digit()) {
                    flt = true;
                    s.push(d);
                } else if (d == 'e' || d == 'E') && b.get(i + 1).is_some_and(|x| x.is_ascii_digit() || *x == '-') {
                    flt = true;
                    s.push(d);
                    i += 1;
                    s.push(b[i]);
                } else {
                    break;
                }
                i += 1;
            }
            push!(
                if flt { s.parse().map_or(T::Bad, T::Flt) } else { s.parse().map_or(T::Bad, T::Int) },
                st
            );
            continue;
        }
        if idc(c) {
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            if i < b.len() && (b[i] == '?' || b[i] == '!') && b.get(i + 1) != Some(&'=') {
                i += 1;
            } else if i + 1 < b.len() && (b[i] == '?' || b[i] == '!') && b.get(i + 1) == Some(&'=') && b.get(i + 2) == Some(&'=') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            let s = intern(&w);
            let tern = matches!(prev, T::Op("?"));
            if b.get(i) == Some(&':') && b.get(i + 1) != Some(&':') && !tern && !after_dot {
                i += 1;
                push!(T::Label(s), st);
                continue;
            }
            // the name of a writer
            if prev == T::Kw("def") && b.get(i) == Some(&'=') && !matches!(b.get(i + 1), Some('=' | '~' | '>' | ' ')) {
                i += 1;
                push!(T::Id(intern(&format!("{w}="))), st);
                continue;
            }
            if KW.contains(&s) && !after_dot {
                push!(T::Kw(s), st);
            } else if w.starts_with(|c: char| c.is_uppercase()) {
                push!(T::Const(s), st);
            } else {
                push!(T::Id(s), st);
            }
            continue;
        }
        if c == '@' || c == '$' {
            i += 1;
            let cv = b.get(i) == Some(&'@');
            if cv {
                i += 1;
            }
            if c == '$' && i < b.len() && !idc(b[i]) {
                i += 1;
            }
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            let s = intern(&b[st..i].iter().collect::<String>());
            push!(
                if c == '$' {
                    T::GVar(s)
                } else if cv {
                    T::CVar(s)
                } else {
                    T::IVar(s)
                },
                st
            );
            continue;
        }
        if c == '"' || c == '\'' || c == '`' {
            let (parts, e, nl) = string(&b, i + 1, c, None, c != '\'');
            let l0 = line;
            i = e;
            // "name": value
            if c == '"' && b.get(i) == Some(&':') && b.get(i + 1) == Some(&' ') && parts.iter().all(|p| matches!(p, Part::S(_))) && !matches!(prev, T::Op("?")) {
                let s: String = parts.iter().map(|p| if let Part::S(s) = p { s.as_str() } else { "" }).collect();
                i += 1;
                push!(T::Label(intern(&s)), st);
            } else {
                push!(T::Str(parts), st);
            }
            line = l0 + nl;
            continue;
        }
        if c == ':' && (b.get(i + 1).is_some_and(|x| idc(*x) || *x == '@' || *x == '$')) && prev != T::Op("::") && !(matches!(prev, T::Op("?")) && false) {
            i += 1;
            while i < b.len() && (idc(b[i]) || b[i] == '@' || b[i] == '$') {
                i += 1;
            }
            if i < b.len() && (b[i] == '?' || b[i] == '!') && b.get(i + 1) != Some(&'=') {
                i += 1;
            }
            if i < b.len() && b[i] == '=' && !matches!(b.get(i + 1), Some('=' | '~' | '>')) {
                i += 1;
            }
            push!(T::Sym(intern(&b[st + 1..i].iter().collect::<String>())), st);
            continue;
        }
        if c == ':' && b.get(i + 1) == Some(&'"') {
            let (parts, e, _) = string(&b, i + 2, '"', None, true);
            i = e;
            match parts.as_slice() {
                [Part::S(s)] => push!(T::Sym(intern(s)), st),
                _ => push!(T::Bad, st),
            }
            continue;
        }
        if c == ':' && val && b.get(i + 1).is_some_and(|x| "+-*/<>=![&|^~%".contains(*x)) {
            let rest: String = b[i + 1..].iter().take(3).collect();
            let o = ["[]=", "[]", "<=>", "===", "==", "=~", "!=", "<<", ">>", "<=", ">=", "**", "+", "-", "*", "/", "%", "<", ">", "!", "&", "|", "^", "~"]
                .iter()
                .find(|o| rest.starts_with(**o))
                .unwrap();
            i += 1 + o.len();
            push!(T::Sym(intern(o)), st);
            continue;
        }
        if c == '%' && (val || cmd) && matches!(b.get(i + 1), Some('w' | 'i' | 'q' | 'Q' | '(' | '[' | '{')) {
            let (kind, p) = if b[i + 1].is_alphabetic() { (b[i + 1], i + 2) } else { ('Q', i + 1) };
            let close = match b[p] {
                '(' => ')',
                '[' => ']',
                '{' => '}',
                x => x,
            };
            let (parts, e, nl) = string(&b, p + 1, close, Some(b[p]), kind == 'Q');
            i = e;
            match kind {
                'w' | 'i' => {
                    let s: String = parts.iter().map(|p| if let Part::S(s) = p { s.as_str() } else { "" }).collect();
                    push!(T::Words(s.split_whitespace().map(intern).collect(), kind == 'i'), st);
                }
                _ => push!(T::Str(parts), st),
            }
            line += nl;
            continue;
        }
        if c == '/' && (val || cmd) {
            i += 1;
            while i < b.len() && b[i] != '/' && b[i] != '\n' {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
            while i < b.len() && b[i].is_alphabetic() {
                i += 1;
            }
            push!(T::Bad, st);
            continue;
        }
        if c == '<' && (val || cmd) && b.get(i + 1) == Some(&'<') && matches!(b.get(i + 2), Some('~' | '-')) {
            let mut k = i + 3;
            while k < b.len() && (idc(b[k]) || b[k] == '\'' || b[k] == '"') {
                k += 1;
            }
            let id: String = b[i + 3..k].iter().filter(|c| idc(**c)).collect();
            push!(T::Bad, st);
            // the rest of the line is dropped with the text
            while k < b.len() && b[k] != '\n' {
                k += 1;
            }
            loop {
                k += 1;
                line += 1;
                bol = k;
                let e = b[k.min(b.len())..].iter().position(|c| *c == '\n').map_or(b.len(), |x| k + x);
                let l: String = b[k.min(b.len())..e].iter().collect();
                k = e;
                if l.trim() == id || e >= b.len() {
                    break;
                }
            }
            i = k;
            continue;
        }
        if c == '?' && val && b.get(i + 1).is_some_and(|x| x.is_alphanumeric()) && !b.get(i + 2).is_some_and(|x| idc(*x)) {
            i += 2;
            push!(T::Str(vec![Part::S(b[i - 1].to_string())]), st);
            continue;
        }
        let rest: String = b[i..].iter().take(3).collect();
        match OPS.iter().find(|o| rest.starts_with(**o)) {
            Some(o) => {
                i += o.len();
                push!(T::Op(o), st);
            }
            None => {
                i += 1;
                push!(T::Bad, st);
            }
        }
    }
    push!(T::Nl, i);
    push!(T::Eof, i);
    out
}

fn string(b: &[char], mut i: usize, close: char, open: Option<char>, interp: bool) -> (Vec<Part>, usize, u32) {
    let mut parts = vec![];
    let mut s = String::new();
    let mut nl = 0;
    let mut depth = 0;
    while i < b.len() {
        let c = b[i];
        if c == '\n' {
            nl += 1;
        }
        if c == close && depth == 0 {
            i += 1;
            break;
        }
        if Some(c) == open && open != Some(close) {
            depth += 1;
        } else if c == close {
            depth -= 1;
        }
        if c == '\\' && i + 1 < b.len() {
            i += 1;
            if interp {
                s.push(match b[i] {
                    'n' => '\n',
                    't' => '\t',
                    '0' => '\0',
                    'e' => '\u{1b}',
                    x => x,
                });
            } else {
                if b[i] != close && b[i] != '\\' {
                    s.push('\\');
                }
                s.push(b[i]);
            }
            i += 1;
            continue;
        }
        if interp && c == '#' && b.get(i + 1) == Some(&'{') {
            if !s.is_empty() {
                parts.push(Part::S(std::mem::take(&mut s)));
            }
            let st = i + 2;
            let mut d = 1;
            i += 2;
            while i < b.len() && d > 0 {
                match b[i] {
                    '{' => d += 1,
                    '}' => d -= 1,
                    _ => {}
                }
                i += 1;
            }
            parts.push(Part::Code(b[st..i - 1].iter().collect()));
            continue;
        }
        s.push(c);
        i += 1;
    }
    if !s.is_empty() || parts.is_empty() {
        parts.push(Part::S(s));
    }
    (parts, i, nl)
}

// ---- syntax tree ----------------------------------------------------------

#[derive(Debug)]
pub enum N {
    Nil,
    True,
    False,
    SelfN,
    Int(i64),
    Flt(f64),
    Str(Vec<SP>),
    Sym(S),
    Arr(Vec<A>),
    Hash(Vec<A>),
    Range(Box<N>, Box<N>, bool),
    Lvar(S),
    Ivar(S),
    Gvar(S),
    Cvar(S),
    Const(Option<Box<N>>, S, bool),
    Asgn(L, Box<N>),
    OpAsgn(L, S, Box<N>),
    Multi(Vec<(L, bool)>, Box<N>),
    Call { recv: Option<Box<N>>, name: S, args: Vec<A>, block: Option<Box<Blk>>, safe: bool, vcall: bool },
    Super(Option<Vec<A>>, Option<Box<Blk>>),
    Yield(Vec<A>),
    And(Box<N>, Box<N>),
    Or(Box<N>, Box<N>),
    Not(Box<N>),
    Defined(Box<N>),
    If(Box<N>, Box<N>, Box<N>),
    While { cond: Box<N>, until: bool, body: Box<N>, first: bool },
    For(L, Box<N>, Box<N>),
    Case(Option<Box<N>>, Vec<(Vec<A>, N)>, Box<N>),
    Begin { body: Box<N>, rescue: Vec<(Vec<N>, Option<L>, N)>, els: Option<Box<N>>, ensure: Option<Box<N>> },
    Seq(Vec<N>),
    Return(Option<Box<N>>),
    /// out of a loop, or of a block
    Break(bool, Option<Box<N>>),
    Next(bool, Option<Box<N>>),
    Retry,
    Def { on: Option<Box<N>>, name: S, f: &'static Func },
    Class { path: Box<N>, sup: Option<Box<N>>, body: Box<N>, module: bool },
    SClass(Box<N>, Box<N>),
    Alias(S, S),
    Lambda(Box<Blk>),
    /// a definition that could not be read
    Poison(S, String),
}

#[derive(Debug)]
pub enum SP {
    S(String),
    N(N),
}

/// Argument or element.
#[derive(Debug)]
pub enum A {
    N(N),
    Splat(N),
    Pair(N, N),
    DSplat(N),
    Block(Option<N>),
}

/// Assignment target.
#[derive(Debug)]
pub enum L {
    Lvar(S),
    Ivar(S),
    Gvar(S),
    Cvar(S),
    Const(S),
    Attr(Box<N>, S, bool),
    Index(Box<N>, Vec<A>),
    Nested(Vec<(L, bool)>),
}

#[derive(Debug, Default)]
pub struct Params {
    pub req: Vec<L>,
    pub opt: Vec<(S, N)>,
    pub rest: Option<S>,
    pub post: Vec<L>,
    pub kw: Vec<(S, Option<N>)>,
    pub kwrest: Option<S>,
    pub block: Option<S>,
}

#[derive(Debug)]
pub struct Func {
    pub name: S,
    pub params: Params,
    pub body: N,
    pub line: u32,
}

#[derive(Debug)]
pub struct Blk {
    pub params: Params,
    pub body: N,
    pub locals: Vec<S>,
}

pub struct PErr(pub String, pub u32);
type P<X> = Result<X, PErr>;

pub struct Parser {
    t: Vec<Tok>,
    p: usize,
    scopes: Vec<(Vec<S>, bool)>,
    no_do: u32,
    /// innermost enclosing construct of each function: loop or block
    loops: Vec<bool>,
    pub poisoned: Vec<String>,
}

fn binop(o: S) -> Option<(u8, bool)> {
    Some(match o {
        "**" => (14, true),
        "*" | "/" | "%" => (12, false),
        "+" | "-" => (11, false),
        "<<" | ">>" => (10, false),
        "&" => (9, false),
        "|" | "^" => (8, false),
        "<" | ">" | "<=" | ">=" => (7, false),
        "<=>" | "==" | "===" | "!=" | "=~" | "!~" => (6, false),
        "&&" => (5, false),
        "||" => (4, false),
        ".." | "..." => (3, false),
        _ => return None,
    })
}

impl Parser {
    pub fn new(src: &str) -> Parser {
        Parser { t: lex(src), p: 0, scopes: vec![(vec![], false)], no_do: 0, loops: vec![], poisoned: vec![] }
    }
    fn t(&self) -> &T {
        &self.t[self.p].t
    }
    fn peek(&self, k: usize) -> &Tok {
        &self.t[(self.p + k).min(self.t.len() - 1)]
    }
    fn fail<X>(&self, m: &str) -> P<X> {
        Err(PErr(format!("{m} at {:?}", self.t()), self.t[self.p].line))
    }
    fn bump(&mut self) -> T {
        let t = self.t[self.p].t.clone();
        if self.p + 1 < self.t.len() {
            self.p += 1;
        }
        t
    }
    fn op(&mut self, o: &str) -> bool {
        if matches!(self.t(), T::Op(x) if *x == o) {
            self.bump();
            return true;
        }
        false
    }
    fn is_op(&self, o: &str) -> bool {
        matches!(self.t(), T::Op(x) if *x == o)
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.is_kw(k) {
            self.bump();
            return true;
        }
        false
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.t(), T::Kw(x) if *x == k)
    }
    fn need_op(&mut self, o: &str) -> P<()> {
        if self.op(o) { Ok(()) } else { self.fail(&format!("expected {o}")) }
    }
    fn need_kw(&mut self, o: &str) -> P<()> {
        if self.kw(o) { Ok(()) } else { self.fail(&format!("expected {o}")) }
    }
    fn nls(&mut self) {
        while *self.t() == T::Nl {
            self.bump();
        }
    }
    fn terms(&mut self) {
        while *self.t() == T::Nl || self.is_op(";") {
            self.bump();
        }
    }
    fn known(&self, s: S) -> bool {
        for (v, through) in self.scopes.iter().rev() {
            if v.contains(&s) {
                return true;
            }
            if !through {
                break;
            }
        }
        false
    }
    fn declare(&mut self, s: S) {
        if !self.known(s) {
            self.scopes.last_mut().unwrap().0.push(s);
        }
    }

    pub fn program(&mut self) -> P<N> {
        let n = self.stmts(&[])?;
        if *self.t() != T::Eof {
            return self.fail("unexpected");
        }
        Ok(n)
    }

    fn stmts(&mut self, stop: &[&str]) -> P<N> {
        let mut v = vec![];
        self.terms();
        while *self.t() != T::Eof && !self.is_op("}") && !matches!(self.t(), T::Kw(k) if stop.contains(k)) {
            v.push(self.stmt()?);
            if *self.t() != T::Nl && !self.is_op(";") && !self.is_op("}") && *self.t() != T::Eof && !matches!(self.t(), T::Kw(k) if stop.contains(k)) {
                return self.fail("expected the end of a statement");
            }
            self.terms();
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { N::Seq(v) })
    }

    pub fn stmt(&mut self) -> P<N> {
        let mut n = self.expr_stmt()?;
        loop {
            if self.kw("if") {
                let c = self.expr_stmt()?;
                n = N::If(Box::new(c), Box::new(n), Box::new(N::Nil));
            } else if self.kw("unless") {
                let c = self.expr_stmt()?;
                n = N::If(Box::new(c), Box::new(N::Nil), Box::new(n));
            } else if self.is_kw("while") || self.is_kw("until") {
                let until = self.is_kw("until");
                self.bump();
                let c = self.expr_stmt()?;
                let first = matches!(n, N::Begin { .. });
                n = N::While { cond: Box::new(c), until, body: Box::new(n), first };
            } else if self.kw("rescue") {
                let r = self.expr_stmt()?;
                n = N::Begin { body: Box::new(n), rescue: vec![(vec![], None, r)], els: None, ensure: None };
            } else {
                return Ok(n);
            }
        }
    }

    fn expr_stmt(&mut self) -> P<N> {
        let mut n = self.not_expr()?;
        loop {
            if self.kw("and") {
                self.nls();
                let r = self.not_expr()?;
                n = N::And(Box::new(n), Box::new(r));
            } else if self.kw("or") {
                self.nls();
                let r = self.not_expr()?;
                n = N::Or(Box::new(n), Box::new(r));
            } else {
                return Ok(n);
            }
        }
    }

    fn not_expr(&mut self) -> P<N> {
        if self.kw("not") {
            return Ok(N::Not(Box::new(self.not_expr()?)));
        }
        // a, b = ...
        if let Some(m) = self.try_multi()? {
            return Ok(m);
        }
        self.expr()
    }

    fn try_multi(&mut self) -> P<Option<N>> {
        // only `x, ...` or `*x, ...` at the start of a statement
        if !matches!(self.t(), T::Id(_) | T::IVar(_) | T::GVar(_) | T::Op("*") | T::Op("(") | T::Kw("self")) {
            return Ok(None);
        }
        let (mut k, mut d, mut comma) = (0, 0, false);
        loop {
            match &self.peek(k).t {
                T::Op("(" | "[") => d += 1,
                T::Op(")" | "]") => {
                    d -= 1;
                    if d < 0 {
                        return Ok(None);
                    }
                }
                T::Op(",") if d == 0 => comma = true,
                T::Op("=") if d == 0 => break,
                T::Op("*") if d == 0 && k == 0 => comma = true,
                T::Id(_) | T::IVar(_) | T::GVar(_) | T::Op("." | "*" | ",") | T::Kw("self") => {
                    if k > 0 && d == 0 && self.peek(k).sp && !matches!(self.peek(k - 1).t, T::Op("," | "*" | "(")) {
                        return Ok(None);
                    }
                }
                _ if d > 0 => {
                    if matches!(self.peek(k).t, T::Nl | T::Eof) {
                        return Ok(None);
                    }
                }
                _ => return Ok(None),
            }
            k += 1;
        }
        if !comma {
            return Ok(None);
        }
        let l = self.mlhs()?;
        self.need_op("=")?;
        self.nls();
        let r = self.rhs_list()?;
        Ok(Some(N::Multi(l, Box::new(r))))
    }

    fn mlhs(&mut self) -> P<Vec<(L, bool)>> {
        let mut v = vec![];
        loop {
            let splat = self.op("*");
            if self.op("(") {
                let m = self.mlhs()?;
                self.need_op(")")?;
                v.push((L::Nested(m), false));
            } else {
                let n = self.primary_postfix()?;
                v.push((self.target(n)?, splat));
            }
            if !self.op(",") || self.is_op("=") {
                return Ok(v);
            }
        }
    }

    fn rhs_list(&mut self) -> P<N> {
        let splat = self.op("*");
        let n = self.expr()?;
        if !splat && !self.is_op(",") {
            return Ok(n);
        }
        let mut v = vec![if splat { A::Splat(n) } else { A::N(n) }];
        while self.op(",") {
            self.nls();
            v.push(if self.op("*") { A::Splat(self.expr()?) } else { A::N(self.expr()?) });
        }
        Ok(N::Arr(v))
    }

    fn target(&mut self, n: N) -> P<L> {
        Ok(match n {
            N::Lvar(s) => L::Lvar(s),
            N::Ivar(s) => L::Ivar(s),
            N::Gvar(s) => L::Gvar(s),
            N::Cvar(s) => L::Cvar(s),
            N::Const(None, s, false) => L::Const(s),
            N::Call { recv: None, name, vcall: true, .. } => {
                self.declare(name);
                L::Lvar(name)
            }
            N::Call { recv: Some(r), name: "[]", args, .. } => L::Index(r, args),
            N::Call { recv: Some(r), name, args, safe, block: None, .. } if args.is_empty() => L::Attr(r, intern(&format!("{name}=")), safe),
            _ => return self.fail("not assignable"),
        })
    }

    pub fn expr(&mut self) -> P<N> {
        let start = self.p;
        let n = self.ternary()?;
        let T::Op(o) = *self.t() else { return Ok(n) };
        if o == "=" {
            if !matches!(n, N::Lvar(_) | N::Ivar(_) | N::Gvar(_) | N::Cvar(_) | N::Const(..) | N::Call { .. }) {
                return Ok(n);
            }
            let l = self.target(n)?;
            self.bump();
            self.nls();
            let r = if self.is_op("*") { self.rhs_list()? } else { self.rhs()? };
            return Ok(N::Asgn(l, Box::new(r)));
        }
        if matches!(o, "+=" | "-=" | "*=" | "/=" | "%=" | "||=" | "&&=" | "|=" | "&=" | "^=" | "<<=" | ">>=" | "**=") {
            let _ = start;
            let l = self.target(n)?;
            self.bump();
            self.nls();
            let r = self.rhs()?;
            return Ok(N::OpAsgn(l, intern(&o[..o.len() - 1]), Box::new(r)));
        }
        Ok(n)
    }

    fn rhs(&mut self) -> P<N> {
        let n = self.expr()?;
        if self.is_kw("rescue") {
            self.bump();
            let r = self.expr()?;
            return Ok(N::Begin { body: Box::new(n), rescue: vec![(vec![], None, r)], els: None, ensure: None });
        }
        Ok(n)
    }

    fn ternary(&mut self) -> P<N> {
        let c = self.binary(3)?;
        if self.is_op("?") {
            self.bump();
            self.nls();
            let a = self.ternary_arm()?;
            self.nls();
            // `x ? y : z` and `x ? y: z`
            if !matches!(self.t(), T::Op(":")) {
                return self.fail("expected :");
            }
            self.bump();
            self.nls();
            let b = self.ternary_arm()?;
            return Ok(N::If(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }

    fn ternary_arm(&mut self) -> P<N> {
        self.expr()
    }

    fn binary(&mut self, min: u8) -> P<N> {
        let mut l = self.unary()?;
        loop {
            let T::Op(o) = *self.t() else { return Ok(l) };
            let Some((pr, right)) = binop(o) else { return Ok(l) };
            if pr < min {
                return Ok(l);
            }
            self.bump();
            if pr == 3 && (*self.t() == T::Nl || self.is_op(")") || self.is_op("]")) {
                l = N::Range(Box::new(l), Box::new(N::Nil), o == "...");
                continue;
            }
            self.nls();
            let r = if pr <= 5 && pr >= 4 && self.is_kw("not") { self.not_expr()? } else { self.binary(if right { pr } else { pr + 1 })? };
            l = match o {
                "&&" => N::And(Box::new(l), Box::new(self.maybe_asgn(r)?)),
                "||" => N::Or(Box::new(l), Box::new(self.maybe_asgn(r)?)),
                ".." | "..." => N::Range(Box::new(l), Box::new(r), o == "..."),
                "!=" => N::Not(Box::new(call(l, "==", vec![A::N(r)]))),
                "!~" => N::Not(Box::new(call(l, "=~", vec![A::N(r)]))),
                _ => call(l, o, vec![A::N(r)]),
            };
        }
    }

    /// `a && b = c`
    fn maybe_asgn(&mut self, n: N) -> P<N> {
        if self.is_op("=") && matches!(n, N::Lvar(_) | N::Ivar(_) | N::Call { .. }) {
            let l = self.target(n)?;
            self.bump();
            self.nls();
            let r = self.rhs()?;
            return Ok(N::Asgn(l, Box::new(r)));
        }
        Ok(n)
    }

    fn unary(&mut self) -> P<N> {
        if self.op("!") {
            let n = self.unary()?;
            return Ok(N::Not(Box::new(n)));
        }
        if self.is_op("-") {
            self.bump();
            let n = self.binary(13)?;
            return Ok(match n {
                N::Int(i) => N::Int(-i),
                N::Flt(f) => N::Flt(-f),
                n => call(n, "-@", vec![]),
            });
        }
        if self.op("+") {
            return self.unary();
        }
        if self.op("~") {
            let n = self.unary()?;
            return Ok(call(n, "~", vec![]));
        }
        if self.op("::") {
            let T::Const(c) = self.bump() else { return self.fail("expected a constant") };
            return self.postfix(N::Const(None, c, true));
        }
        if self.kw("defined?") {
            let n = if self.op("(") {
                let n = self.expr()?;
                self.need_op(")")?;
                n
            } else {
                self.unary()?
            };
            return Ok(N::Defined(Box::new(n)));
        }
        self.primary_postfix()
    }

    fn primary_postfix(&mut self) -> P<N> {
        let n = self.primary()?;
        self.postfix(n)
    }

    /// Whether the current token can begin the first argument of a call
    /// without parentheses.
    fn starts_arg(&self) -> bool {
        let tok = &self.t[self.p];
        if !tok.sp {
            return false;
        }
        let tight = !self.peek(1).sp && self.peek(1).t != T::Nl;
        match &tok.t {
            T::Id(_) | T::Const(_) | T::IVar(_) | T::GVar(_) | T::CVar(_) | T::Int(_) | T::Flt(_) | T::Str(_) | T::Sym(_) | T::Words(..) | T::Label(_) => true,
            T::Kw(k) => matches!(
                *k,
                "nil" | "true" | "false" | "self" | "not" | "defined?" | "super" | "yield" | "def" | "case" | "begin" | "__method__" | "class"
            ) || (matches!(*k, "if" | "unless" | "while" | "until") && false),
            T::Op(o) => match *o {
                "->" | "!" | "~" => true,
                "[" => true,
                "(" => true,
                "-" | "*" | "&" | "**" | "::" | ":" => tight,
                _ => false,
            },
            _ => false,
        }
    }

    fn call_args(&mut self, close: &str) -> P<Vec<A>> {
        let mut v = vec![];
        let nd = std::mem::take(&mut self.no_do);
        self.nls();
        while !self.op(close) {
            v.push(self.arg()?);
            self.nls();
            if !self.op(",") {
                self.nls();
                self.need_op(close)?;
                break;
            }
            self.nls();
        }
        self.no_do = nd;
        Ok(v)
    }

    fn arg(&mut self) -> P<A> {
        if self.op("*") {
            return Ok(A::Splat(self.ternary()?));
        }
        if self.op("**") {
            return Ok(A::DSplat(self.ternary()?));
        }
        if self.op("&") {
            if self.is_op(")") {
                return Ok(A::Block(None));
            }
            return Ok(A::Block(Some(self.ternary()?)));
        }
        if let T::Label(s) = *self.t() {
            self.bump();
            self.nls();
            if self.is_op(",") || self.is_op(")") || self.is_op("}") {
                // f(x:)
                let v = if self.known(s) { N::Lvar(s) } else { N::Call { recv: None, name: s, args: vec![], block: None, safe: false, vcall: true } };
                return Ok(A::Pair(N::Sym(s), v));
            }
            return Ok(A::Pair(N::Sym(s), self.no_multi_expr()?));
        }
        let n = self.no_multi_expr()?;
        if self.op("=>") {
            self.nls();
            return Ok(A::Pair(n, self.no_multi_expr()?));
        }
        Ok(A::N(n))
    }

    fn no_multi_expr(&mut self) -> P<N> {
        if self.kw("not") {
            return Ok(N::Not(Box::new(self.expr()?)));
        }
        self.expr()
    }

    fn command_args(&mut self) -> P<Vec<A>> {
        self.no_do += 1;
        let mut v = vec![];
        loop {
            v.push(self.arg()?);
            if !self.op(",") {
                break;
            }
            self.nls();
        }
        self.no_do -= 1;
        Ok(v)
    }

    fn block_opt(&mut self, brace: bool) -> P<Option<Box<Blk>>> {
        if brace && self.is_op("{") {
            self.bump();
            return Ok(Some(Box::new(self.block("}")?)));
        }
        if self.no_do == 0 && self.is_kw("do") {
            self.bump();
            return Ok(Some(Box::new(self.block("end")?)));
        }
        Ok(None)
    }

    fn block(&mut self, close: &str) -> P<Blk> {
        let nd = std::mem::take(&mut self.no_do);
        self.scopes.push((vec![], true));
        self.loops.push(false);
        let mut params = Params::default();
        self.nls();
        if self.op("|") {
            params = self.params("|")?;
        } else if self.op("||") {
        }
        let body = if close == "}" {
            let b = self.stmts(&[])?;
            self.need_op("}")?;
            b
        } else {
            let b = self.body()?;
            self.need_kw("end")?;
            b
        };
        self.loops.pop();
        let (locals, _) = self.scopes.pop().unwrap();
        self.no_do = nd;
        Ok(Blk { params, body, locals })
    }

    fn params(&mut self, close: &str) -> P<Params> {
        let mut p = Params::default();
        loop {
            if !close.is_empty() {
                self.nls();
                if self.op(close) {
                    return Ok(p);
                }
            }
            if close.is_empty() && (*self.t() == T::Nl || self.is_op(";") || self.is_op("=")) {
                return Ok(p);
            }
            match self.bump() {
                T::Op("*") => {
                    let n = self.opt_name("*");
                    p.rest = Some(n);
                }
                T::Op("**") => {
                    if self.kw("nil") {
                    } else {
                        let n = self.opt_name("**");
                        p.kwrest = Some(n);
                    }
                }
                T::Op("&") => {
                    let n = self.opt_name("&");
                    p.block = Some(n);
                }
                T::Op("(") => {
                    let m = self.params(")")?;
                    let mut v: Vec<(L, bool)> = m.req.into_iter().map(|l| (l, false)).collect();
                    if let Some(r) = m.rest {
                        v.push((L::Lvar(r), true));
                    }
                    p.req.push(L::Nested(v));
                }
                T::Op(";") => {
                    while let T::Id(s) = *self.t() {
                        self.bump();
                        self.scopes.last_mut().unwrap().0.push(s);
                        self.op(",");
                    }
                    continue;
                }
                T::Label(s) => {
                    self.scopes.last_mut().unwrap().0.push(s);
                    if self.is_op(",") || self.is_op(close) || *self.t() == T::Nl {
                        p.kw.push((s, None));
                    } else {
                        let d = self.param_default()?;
                        p.kw.push((s, Some(d)));
                    }
                }
                T::Id(s) => {
                    self.scopes.last_mut().unwrap().0.push(s);
                    if self.op("=") {
                        let d = self.param_default()?;
                        p.opt.push((s, d));
                    } else if p.rest.is_some() || !p.opt.is_empty() {
                        p.post.push(L::Lvar(s));
                    } else {
                        p.req.push(L::Lvar(s));
                    }
                }
                _ => {
                    self.p -= 1;
                    return self.fail("bad parameter");
                }
            }
            self.op(",");
        }
    }

    fn param_default(&mut self) -> P<N> {
        // no `|` operator inside block parameters
        self.binary(9)
    }

    fn opt_name(&mut self, d: &str) -> S {
        let n = if let T::Id(s) = *self.t() {
            self.bump();
            s
        } else {
            intern(d)
        };
        self.scopes.last_mut().unwrap().0.push(n);
        n
    }

    /// Statements with optional rescue, else and ensure parts, up to `end`.
    fn body(&mut self) -> P<N> {
        let b = self.stmts(&["end", "rescue", "else", "ensure"])?;
        let mut rescue = vec![];
        let (mut els, mut ensure) = (None, None);
        while self.kw("rescue") {
            let mut classes = vec![];
            let mut var = None;
            while *self.t() != T::Nl && !self.is_kw("then") && !self.is_op(";") {
                if self.op("=>") {
                    let n = self.primary_postfix()?;
                    var = Some(self.target(n)?);
                    break;
                }
                if self.op("*") {
                    return self.fail("splat in rescue");
                }
                classes.push(self.ternary()?);
                self.op(",");
            }
            self.kw("then");
            let r = self.stmts(&["end", "rescue", "else", "ensure"])?;
            rescue.push((classes, var, r));
        }
        if self.kw("else") {
            els = Some(Box::new(self.stmts(&["end", "ensure"])?));
        }
        if self.kw("ensure") {
            ensure = Some(Box::new(self.stmts(&["end"])?));
        }
        if rescue.is_empty() && els.is_none() && ensure.is_none() {
            return Ok(b);
        }
        Ok(N::Begin { body: Box::new(b), rescue, els, ensure })
    }

    fn postfix(&mut self, mut n: N) -> P<N> {
        loop {
            let tok = self.t[self.p].clone();
            match tok.t {
                // a leading dot continues the expression on the next line
                T::Nl => {
                    let mut k = 1;
                    while self.peek(k).t == T::Nl {
                        k += 1;
                    }
                    if matches!(self.peek(k).t, T::Op("." | "&.")) {
                        self.p += k;
                        continue;
                    }
                    return Ok(n);
                }
                T::Op(o @ ("." | "&.")) => {
                    self.bump();
                    self.nls();
                    let safe = o == "&.";
                    let name = match self.bump() {
                        T::Id(s) | T::Const(s) | T::Kw(s) => s,
                        T::Label(s) => {
                            // x.y ? a.b: c
                            self.p -= 1;
                            let l = self.p;
                            let t = &mut self.t[l];
                            t.t = T::Id(s);
                            let (line, col) = (t.line, t.col);
                            self.t.insert(l + 1, Tok { t: T::Op(":"), line, col, sp: false });
                            self.bump();
                            s
                        }
                        T::Op("(") => {
                            self.p -= 1;
                            "call"
                        }
                        T::Op(o) if binop(o).is_some() || o == "!" || o == "[" => {
                            if o == "[" {
                                self.need_op("]")?;
                                "[]"
                            } else {
                                o
                            }
                        }
                        _ => {
                            self.p -= 1;
                            return self.fail("expected a method name");
                        }
                    };
                    n = self.call_rest(Some(Box::new(n)), name, safe)?;
                }
                T::Op("::") if !tok.sp || !matches!(self.peek(1).t, T::Const(_)) => {
                    self.bump();
                    match self.bump() {
                        T::Const(c) if !self.is_op("(") || self.t[self.p].sp => n = N::Const(Some(Box::new(n)), c, false),
                        T::Id(s) | T::Const(s) => n = self.call_rest(Some(Box::new(n)), s, false)?,
                        _ => return self.fail("expected a name"),
                    }
                }
                T::Op("[") if !tok.sp => {
                    self.bump();
                    let a = self.call_args("]")?;
                    n = call(n, "[]", a);
                }
                _ => return Ok(n),
            }
        }
    }

    fn call_rest(&mut self, recv: Option<Box<N>>, name: S, safe: bool) -> P<N> {
        let mut args = vec![];
        let mut vcall = recv.is_none();
        if self.is_op("(") && !self.t[self.p].sp {
            self.bump();
            args = self.call_args(")")?;
            vcall = false;
        } else if self.starts_arg() && !(self.is_op("[") && recv.is_some() && false) {
            // `x [1]` with a space is an index for anything but a bare name
            args = self.command_args()?;
            vcall = false;
        }
        let block = self.block_opt(true)?;
        if block.is_some() {
            vcall = false;
        }
        Ok(N::Call { recv, name, args, block, safe, vcall })
    }

    fn jump_arg(&mut self) -> P<Option<Box<N>>> {
        match self.t() {
            T::Nl | T::Eof | T::Op("}" | ";" | ")" | ":") | T::Kw("if" | "unless" | "while" | "until" | "end" | "and" | "or") => Ok(None),
            _ => {
                let n = self.rhs_list()?;
                Ok(Some(Box::new(n)))
            }
        }
    }

    fn then_body(&mut self, stop: &[&str]) -> P<N> {
        self.terms();
        self.kw("then");
        self.stmts(stop)
    }

    fn if_rest(&mut self, neg: bool) -> P<N> {
        let c = self.cond()?;
        let a = self.then_body(&["elsif", "else", "end"])?;
        let b = if self.kw("elsif") {
            return Ok(self.if_make(neg, c, a, None)?);
        } else if self.kw("else") {
            let b = self.stmts(&["end"])?;
            self.need_kw("end")?;
            b
        } else {
            self.need_kw("end")?;
            N::Nil
        };
        self.if_make(neg, c, a, Some(b))
    }

    fn if_make(&mut self, neg: bool, c: N, a: N, b: Option<N>) -> P<N> {
        let b = match b {
            Some(b) => b,
            None => self.if_rest(false)?,
        };
        Ok(if neg { N::If(Box::new(c), Box::new(b), Box::new(a)) } else { N::If(Box::new(c), Box::new(a), Box::new(b)) })
    }

    fn cond(&mut self) -> P<N> {
        self.no_do += 1;
        let c = self.expr_stmt();
        self.no_do -= 1;
        c
    }

    fn primary(&mut self) -> P<N> {
        let tok = self.t[self.p].clone();
        match tok.t {
            T::Int(i) => {
                self.bump();
                Ok(N::Int(i))
            }
            T::Flt(f) => {
                self.bump();
                Ok(N::Flt(f))
            }
            T::Str(parts) => {
                self.bump();
                let mut v = self.str_parts(&parts)?;
                while let T::Str(p) = self.t().clone() {
                    self.bump();
                    v.extend(self.str_parts(&p)?);
                }
                Ok(N::Str(v))
            }
            T::Sym(s) => {
                self.bump();
                Ok(N::Sym(s))
            }
            T::Words(w, sym) => {
                self.bump();
                Ok(N::Arr(w.iter().map(|s| A::N(if sym { N::Sym(s) } else { N::Str(vec![SP::S(s.to_string())]) })).collect()))
            }
            T::IVar(s) => {
                self.bump();
                Ok(N::Ivar(s))
            }
            T::GVar(s) => {
                self.bump();
                Ok(N::Gvar(s))
            }
            T::CVar(s) => {
                self.bump();
                Ok(N::Cvar(s))
            }
            T::Const(s) => {
                self.bump();
                if (self.is_op("(") && !self.t[self.p].sp) || (self.t[self.p].sp && matches!(self.t(), T::Str(_))) {
                    return self.call_rest(None, s, false);
                }
                Ok(N::Const(None, s, false))
            }
            T::Id(s) => {
                self.bump();
                if self.known(s) && !(self.is_op("(") && !self.t[self.p].sp) {
                    return Ok(N::Lvar(s));
                }
                // the operand of a later binary operator, as in `size - 1`
                self.call_rest(None, s, false)
            }
            T::Label(s) => {
                // `a ? b: c`
                let l = self.p;
                self.t[l].t = T::Id(s);
                self.t.insert(l + 1, Tok { t: T::Op(":"), line: tok.line, col: tok.col, sp: false });
                self.primary()
            }
            T::Op("(") => {
                self.bump();
                let nd = std::mem::take(&mut self.no_do);
                self.terms();
                let mut v = vec![];
                while !self.op(")") {
                    v.push(self.stmt()?);
                    self.terms();
                }
                self.no_do = nd;
                Ok(match v.len() {
                    0 => N::Nil,
                    1 => v.pop().unwrap(),
                    _ => N::Seq(v),
                })
            }
            T::Op("[") => {
                self.bump();
                Ok(N::Arr(self.call_args("]")?))
            }
            T::Op("{") => {
                self.bump();
                Ok(N::Hash(self.call_args("}")?))
            }
            T::Op("->") => {
                self.bump();
                self.scopes.push((vec![], true));
                self.loops.push(false);
                let mut params = Params::default();
                if self.op("(") {
                    params = self.params(")")?;
                }
                let nd = std::mem::take(&mut self.no_do);
                let body = if self.op("{") {
                    let b = self.stmts(&[])?;
                    self.need_op("}")?;
                    b
                } else {
                    self.need_kw("do")?;
                    let b = self.body()?;
                    self.need_kw("end")?;
                    b
                };
                self.no_do = nd;
                self.loops.pop();
                let (locals, _) = self.scopes.pop().unwrap();
                Ok(N::Lambda(Box::new(Blk { params, body, locals })))
            }
            T::Op(".." | "...") => {
                let Op(o) = self.bump().into();
                let r = self.binary(4)?;
                Ok(N::Range(Box::new(N::Nil), Box::new(r), o == "..."))
            }
            T::Kw(k) => {
                self.bump();
                self.keyword(k, &tok)
            }
            _ => self.fail("unexpected"),
        }
    }

    fn str_parts(&mut self, parts: &[Part]) -> P<Vec<SP>> {
        let mut v = vec![];
        for p in parts {
            match p {
                Part::S(s) => v.push(SP::S(s.clone())),
                Part::Code(c) => {
                    let save = (std::mem::replace(&mut self.t, lex(c)), self.p, self.no_do);
                    self.p = 0;
                    self.no_do = 0;
                    let r = self.stmts(&[]);
                    (self.t, self.p, self.no_do) = save;
                    v.push(SP::N(r?));
                }
            }
        }
        Ok(v)
    }

    fn keyword(&mut self, k: S, tok: &Tok) -> P<N> {
        let nd = self.no_do;
        let outer = matches!(k, "while" | "until" | "if" | "unless" | "case" | "begin" | "def" | "class" | "module" | "for");
        if outer {
            self.no_do = 0;
        }
        let r = self.keyword2(k, tok);
        if outer {
            self.no_do = nd;
        }
        r
    }

    fn keyword2(&mut self, k: S, tok: &Tok) -> P<N> {
        Ok(match k {
            "nil" => N::Nil,
            "true" => N::True,
            "false" => N::False,
            "self" => N::SelfN,
            "__method__" => N::Call { recv: None, name: "__method__", args: vec![], block: None, safe: false, vcall: true },
            "if" => self.if_rest(false)?,
            "unless" => self.if_rest(true)?,
            "while" | "until" => {
                let c = self.cond()?;
                self.kw("do");
                self.loops.push(true);
                let b = self.stmts(&["end"]);
                self.loops.pop();
                let b = b?;
                self.need_kw("end")?;
                N::While { cond: Box::new(c), until: k == "until", body: Box::new(b), first: false }
            }
            "for" => {
                let n = self.primary_postfix()?;
                let l = self.target(n)?;
                self.need_kw("in")?;
                let c = self.cond()?;
                self.kw("do");
                self.loops.push(true);
                let b = self.stmts(&["end"]);
                self.loops.pop();
                let b = b?;
                self.need_kw("end")?;
                N::For(l, Box::new(c), Box::new(b))
            }
            "case" => {
                let s = if *self.t() == T::Nl { None } else { Some(Box::new(self.expr_stmt()?)) };
                self.terms();
                let mut v = vec![];
                while self.kw("when") {
                    let mut c = vec![];
                    loop {
                        self.nls();
                        c.push(if self.op("*") { A::Splat(self.ternary()?) } else { A::N(self.ternary()?) });
                        if !self.op(",") {
                            break;
                        }
                    }
                    let b = self.then_body(&["when", "else", "end"])?;
                    v.push((c, b));
                }
                let e = if self.kw("else") { self.stmts(&["end"])? } else { N::Nil };
                self.need_kw("end")?;
                N::Case(s, v, Box::new(e))
            }
            "begin" => {
                let b = self.body()?;
                self.need_kw("end")?;
                match b {
                    b @ N::Begin { .. } => b,
                    b => N::Begin { body: Box::new(b), rescue: vec![], els: None, ensure: None },
                }
            }
            "return" => N::Return(self.jump_arg()?),
            "break" => {
                let l = self.loops.last() == Some(&true);
                N::Break(l, self.jump_arg()?)
            }
            "next" => {
                let l = self.loops.last() == Some(&true);
                N::Next(l, self.jump_arg()?)
            }
            "retry" => N::Retry,
            "yield" => {
                let a = if self.is_op("(") && !self.t[self.p].sp {
                    self.bump();
                    self.call_args(")")?
                } else if self.starts_arg() {
                    self.command_args()?
                } else {
                    vec![]
                };
                N::Yield(a)
            }
            "super" => {
                let a = if self.is_op("(") && !self.t[self.p].sp {
                    self.bump();
                    Some(self.call_args(")")?)
                } else if self.starts_arg() {
                    Some(self.command_args()?)
                } else {
                    None
                };
                N::Super(a, self.block_opt(true)?)
            }
            "alias" => {
                let a = self.method_name()?;
                let b = self.method_name()?;
                N::Alias(a, b)
            }
            "def" => self.def(tok)?,
            "class" if self.op("<<") => {
                let o = self.expr()?;
                self.scopes.push((vec![], false));
                let b = self.class_body();
                self.scopes.pop();
                N::SClass(Box::new(o), Box::new(b?))
            }
            "class" | "module" => {
                let root = self.op("::");
                let T::Const(c) = self.bump() else { return self.fail("expected a class name") };
                let mut path = N::Const(None, c, root);
                while self.op("::") {
                    let T::Const(c) = self.bump() else { return self.fail("expected a class name") };
                    path = N::Const(Some(Box::new(path)), c, false);
                }
                let sup = if k == "class" && self.op("<") { Some(Box::new(self.expr()?)) } else { None };
                self.scopes.push((vec![], false));
                let b = self.class_body();
                self.scopes.pop();
                N::Class { path: Box::new(path), sup, body: Box::new(b?), module: k == "module" }
            }
            "not" => N::Not(Box::new(self.expr()?)),
            _ => {
                self.p -= 1;
                return self.fail("unexpected keyword");
            }
        })
    }

    fn method_name(&mut self) -> P<S> {
        Ok(match self.bump() {
            T::Id(s) | T::Const(s) | T::Kw(s) | T::Sym(s) | T::GVar(s) => s,
            T::Op("[") => {
                self.need_op("]")?;
                if self.is_op("=") && !self.t[self.p].sp {
                    self.bump();
                    "[]="
                } else {
                    "[]"
                }
            }
            T::Op(o) => o,
            _ => return self.fail("expected a method name"),
        })
    }

    /// The statements of a class. A statement that cannot be read is left
    /// out up to the `end` in its column; calling what it defines is an error.
    fn class_body(&mut self) -> P<N> {
        let mut v = vec![];
        loop {
            self.terms();
            if self.kw("end") {
                return Ok(N::Seq(v));
            }
            if *self.t() == T::Eof {
                return self.fail("class without end");
            }
            let (p, depth, loops, nd) = (self.p, self.scopes.len(), self.loops.len(), self.no_do);
            match self.stmt() {
                Ok(n) if *self.t() == T::Nl || self.is_op(";") || self.is_kw("end") => v.push(n),
                r => {
                    let why = match r {
                        Err(PErr(m, l)) => format!("line {l}: {m}"),
                        Ok(_) => format!("line {}: unexpected {:?}", self.t[self.p].line, self.t()),
                    };
                    self.scopes.truncate(depth);
                    self.loops.truncate(loops);
                    self.no_do = nd;
                    self.p = p;
                    let col = self.t[p].col;
                    let name = match (&self.t[p].t, &self.peek(1).t, &self.peek(2).t, &self.peek(3).t) {
                        (T::Kw("def"), T::Id("self"), T::Op("."), T::Id(s)) => *s,
                        (T::Kw("def"), T::Id(s), ..) => *s,
                        _ => "",
                    };
                    self.poisoned.push(format!("{name} ({why})"));
                    let opens = matches!(self.t[p].t, T::Kw("def" | "class" | "module" | "if" | "unless" | "begin" | "case" | "while" | "until"));
                    if opens {
                        while *self.t() != T::Eof && !(self.is_kw("end") && self.t[self.p].col == col) {
                            self.bump();
                        }
                        self.bump();
                    } else {
                        while *self.t() != T::Eof && *self.t() != T::Nl {
                            self.bump();
                        }
                    }
                    v.push(N::Poison(name, why));
                }
            }
        }
    }

    fn def(&mut self, tok: &Tok) -> P<N> {
        let mut on = None;
        if matches!(self.t(), T::Id("self") | T::Kw("self")) && matches!(self.peek(1).t, T::Op(".")) {
            self.bump();
            self.bump();
            on = Some(Box::new(N::SelfN));
        } else if matches!(self.t(), T::Const(_)) && matches!(self.peek(1).t, T::Op(".")) {
            let T::Const(c) = self.bump() else { unreachable!() };
            self.bump();
            on = Some(Box::new(N::Const(None, c, false)));
        }
        let label = if let T::Label(s) = *self.t() { Some(s) } else { None };
        if label.is_some() {
            return self.fail("bad method name");
        }
        let mut name = self.method_name()?;
        if matches!(name, "+" | "-" | "!" | "~") && matches!(self.t(), T::IVar(_)) {
            return self.fail("unary operator method");
        }
        // `def self.x=(v)`
        if on.is_some() && self.is_op("=") && !self.t[self.p].sp && matches!(self.peek(1).t, T::Op("(") | T::Id(_)) {
            self.bump();
            name = intern(&format!("{name}="));
        }
        self.scopes.push((vec![], false));
        let loops = std::mem::take(&mut self.loops);
        let r = self.def_rest(name, tok.line);
        self.loops = loops;
        self.scopes.pop();
        Ok(N::Def { on, name, f: r? })
    }

    fn def_rest(&mut self, name: S, line: u32) -> P<&'static Func> {
        let params = if self.op("(") { self.params(")")? } else { self.params("")? };
        let body = if self.op("=") {
            self.nls();
            self.stmt()?
        } else {
            let b = self.body()?;
            self.need_kw("end")?;
            b
        };
        Ok(Box::leak(Box::new(Func { name, params, body, line })))
    }
}

struct Op(S);
impl From<T> for Op {
    fn from(t: T) -> Op {
        match t {
            T::Op(o) => Op(o),
            _ => Op(""),
        }
    }
}

fn call(recv: N, name: S, args: Vec<A>) -> N {
    N::Call { recv: Some(Box::new(recv)), name, args, block: None, safe: false, vcall: false }
}
