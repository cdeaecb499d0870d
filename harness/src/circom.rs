//! A circom 2.1 parser, elaborator and witness calculator, complete enough for the circuits zk-regex emits
//! (and for reasonable rewrites of them). Elaboration is also a monitor: it reports everything that would
//! make the program invalid (undeclared names, bounds, double assignment, use before assignment, missing
//! inputs, non-quadratic constraints).
//!
//! Field: Goldilocks (one of the primes circom itself offers); all values in these circuits are tiny.

use std::collections::HashMap;
use std::rc::Rc;

pub const P: u64 = 0xFFFF_FFFF_0000_0001;
type F = u64;
#[inline]
fn add(a: F, b: F) -> F {
    let s = a as u128 + b as u128;
    (if s >= P as u128 { s - P as u128 } else { s }) as u64
}
#[inline]
fn neg(a: F) -> F {
    if a == 0 {
        0
    } else {
        P - a
    }
}
#[inline]
fn sub(a: F, b: F) -> F {
    add(a, neg(b))
}
#[inline]
fn mul(a: F, b: F) -> F {
    if a <= 1 {
        return if a == 0 { 0 } else { b };
    }
    if b <= 1 {
        return if b == 0 { 0 } else { a };
    }
    let p = a as u128 * b as u128;
    let (lo, hi) = (p as u64, (p >> 64) as u64);
    // 2^64 = 2^32 - 1 and 2^96 = -1 modulo P
    let (h1, h0) = (hi >> 32, hi & 0xffff_ffff);
    let (mut t, borrow) = lo.overflowing_sub(h1);
    if borrow {
        t = t.wrapping_sub(0xffff_ffff);
    }
    let (r, carry) = t.overflowing_add(h0 * 0xffff_ffff);
    let r = if carry { r.wrapping_add(0xffff_ffff) } else { r };
    if r >= P {
        r - P
    } else {
        r
    }
}
fn pow(mut a: F, mut e: u64) -> F {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, a);
        }
        a = mul(a, a);
        e >>= 1;
    }
    r
}
fn inv(a: F) -> F {
    const N: usize = 1024;
    thread_local! {
        static SMALL: Vec<F> = (0..N as u64).map(|x| pow(x, P - 2)).collect();
    }
    if (a as usize) < N {
        return SMALL.with(|t| t[a as usize]);
    }
    if P - a < N as u64 {
        return neg(SMALL.with(|t| t[(P - a) as usize]));
    }
    pow(a, P - 2)
}
fn signed(a: F) -> i128 {
    if a > P / 2 {
        a as i128 - P as i128
    } else {
        a as i128
    }
}
pub fn felt(v: i64) -> F {
    if v < 0 {
        P - (-v) as u64
    } else {
        v as u64
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(u32),
    Num(u64),
    Str(String),
    Op(&'static str),
    Eof,
}

const OPS: &[&str] = &[
    "<==", "==>", "<--", "-->", "===", "**=", "<<=", ">>=", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "++", "--",
    "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "**", "(", ")", "[", "]", "{", "}", ";", ",", ".", "?", ":",
    "=", "<", ">", "+", "-", "*", "/", "\\", "%", "&", "|", "^", "!", "~",
];

#[derive(Default, Clone)]
pub struct Interner {
    map: HashMap<String, u32>,
    names: Vec<String>,
}
impl Interner {
    fn get(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.map.get(s) {
            return i;
        }
        let i = self.names.len() as u32;
        self.map.insert(s.to_string(), i);
        self.names.push(s.to_string());
        i
    }
}

fn lex(src: &str, it: &mut Interner) -> Result<Vec<(Tok, u32)>, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut line = 1u32;
    let mut out = Vec::with_capacity(b.len() / 3);
    'outer: while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
            i += 1;
            continue;
        }
        if c == b' ' || c == b'\t' || c == b'\r' {
            i += 1;
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            i += 2;
            loop {
                if i + 1 >= b.len() {
                    return Err(format!("line {line}: unterminated comment"));
                }
                if b[i] == b'\n' {
                    line += 1;
                }
                if b[i] == b'*' && b[i + 1] == b'/' {
                    i += 2;
                    continue 'outer;
                }
                i += 1;
            }
        }
        if c == b'"' {
            let st = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\n' {
                    return Err(format!("line {line}: unterminated string"));
                }
                i += 1;
            }
            out.push((Tok::Str(String::from_utf8_lossy(&b[st..i.min(b.len())]).into_owned()), line));
            i += 1;
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            if c == b'0' && i + 1 < b.len() && b[i + 1] == b'x' {
                i += 2;
                while i < b.len() && b[i].is_ascii_hexdigit() {
                    i += 1;
                }
                let v = u64::from_str_radix(&src[st + 2..i], 16).map_err(|e| format!("line {line}: number: {e}"))?;
                out.push((Tok::Num(v), line));
                continue;
            }
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if i < b.len() && (b[i].is_ascii_alphabetic() || b[i] == b'_') {
                return Err(format!("line {line}: malformed number"));
            }
            let v: u64 = src[st..i].parse().map_err(|e| format!("line {line}: number: {e}"))?;
            out.push((Tok::Num(v), line));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push((Tok::Id(it.get(&src[st..i])), line));
            continue;
        }
        for op in OPS {
            if src.as_bytes()[i..].starts_with(op.as_bytes()) {
                out.push((Tok::Op(op), line));
                i += op.len();
                continue 'outer;
            }
        }
        return Err(format!("line {line}: unexpected character {:?}", c as char));
    }
    out.push((Tok::Eof, line));
    Ok(out)
}

// ---------------------------------------------------------------- AST

#[derive(Debug, Clone)]
enum Ex {
    Num(F),
    Path(u32, Vec<Acc>),
    Call(u32, Vec<Ex>),
    Anon(u32, Vec<Ex>, Vec<(Option<u32>, Ex)>),
    Tuple(Vec<Ex>),
    Arr(Vec<Ex>),
    Un(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
}
#[derive(Debug, Clone)]
enum Acc {
    Idx(Ex),
    Dot(u32),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SigKind {
    Input,
    Output,
    Mid,
}
#[derive(Debug, Clone)]
enum St {
    Signal(SigKind, Vec<(u32, Vec<Ex>, Option<(&'static str, Ex)>)>),
    SignalTuple(SigKind, Vec<(u32, Vec<Ex>)>, Option<(&'static str, Ex)>),
    Var(Vec<(u32, Vec<Ex>, Option<Ex>)>),
    Component(Vec<(u32, Vec<Ex>, Option<Ex>)>),
    Assign(&'static str, Ex, Ex), // =, +=, ...
    Constrain(Ex, Ex),            // lhs <== rhs
    Hint(Ex, Ex),                 // lhs <-- rhs
    Equal(Ex, Ex),
    For(Box<L>, Ex, Box<L>, Box<L>),
    While(Ex, Box<L>),
    If(Ex, Box<L>, Option<Box<L>>),
    Block(Vec<L>),
    Assert(Ex),
    Return(Ex),
    /// an anonymous component whose outputs are not used
    Bare(Ex),
    Nop,
}
#[derive(Debug, Clone)]
struct L {
    line: u32,
    st: St,
}
#[derive(Debug)]
pub struct Template {
    name: u32,
    params: Vec<u32>,
    body: Vec<L>,
    trusted: bool,
}

#[derive(Default, Clone)]
pub struct Program {
    it: Interner,
    templates: HashMap<u32, Rc<Template>>,
    functions: HashMap<u32, Rc<Template>>,
    pub includes: Vec<String>,
    pub own_templates: Vec<String>,
    pub pragma: bool,
}

struct Parser<'a> {
    t: &'a [(Tok, u32)],
    i: usize,
    it: &'a mut Interner,
}
type R<T> = Result<T, String>;

impl<'a> Parser<'a> {
    fn peek(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn line(&self) -> u32 {
        self.t[self.i].1
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("line {}: {} (at {:?})", self.line(), m, self.show()))
    }
    fn show(&self) -> String {
        match self.peek() {
            Tok::Id(i) => self.it.names[*i as usize].clone(),
            Tok::Num(n) => n.to_string(),
            Tok::Str(s) => format!("\"{s}\""),
            Tok::Op(o) => o.to_string(),
            Tok::Eof => "end of file".into(),
        }
    }
    fn is(&self, o: &str) -> bool {
        matches!(self.peek(), Tok::Op(x) if *x == o)
    }
    fn eat(&mut self, o: &str) -> bool {
        if self.is(o) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, o: &str) -> R<()> {
        if self.eat(o) {
            Ok(())
        } else {
            self.err(&format!("expected {o}"))
        }
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(i) if self.it.names[*i as usize] == k)
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        if self.is_kw(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> R<u32> {
        if let Tok::Id(i) = *self.peek() {
            const KW: &[&str] = &[
                "signal", "input", "output", "var", "component", "template", "function", "for", "while", "if", "else",
                "return", "include", "pragma", "assert", "log", "public", "parallel",
            ];
            if KW.contains(&self.it.names[i as usize].as_str()) {
                return self.err("reserved word used as a name");
            }
            self.i += 1;
            Ok(i)
        } else {
            self.err("expected a name")
        }
    }
    fn dims(&mut self) -> R<Vec<Ex>> {
        let mut d = vec![];
        while self.eat("[") {
            d.push(self.expr()?);
            self.expect("]")?;
        }
        Ok(d)
    }
    fn args(&mut self) -> R<Vec<Ex>> {
        let mut a = vec![];
        if self.eat(")") {
            return Ok(a);
        }
        loop {
            a.push(self.expr()?);
            if self.eat(")") {
                return Ok(a);
            }
            self.expect(",")?;
        }
    }
    /// The inputs of an anonymous component: by position, or all by name (`in <== x`).
    fn anon_args(&mut self) -> R<Vec<(Option<u32>, Ex)>> {
        let mut a = vec![];
        if self.eat(")") {
            return Ok(a);
        }
        loop {
            let mut name = None;
            if let (Tok::Id(i), Tok::Op("<==" | "<--" | "=")) = (self.peek().clone(), &self.t[self.i + 1].0) {
                self.i += 2;
                name = Some(i);
            }
            a.push((name, self.expr()?));
            if self.eat(")") {
                break;
            }
            self.expect(",")?;
        }
        if a.iter().any(|x| x.0.is_some()) && a.iter().any(|x| x.0.is_none()) {
            return self.err("inputs by name and by position are mixed");
        }
        Ok(a)
    }
    fn primary(&mut self) -> R<Ex> {
        match self.peek().clone() {
            Tok::Num(n) => {
                self.i += 1;
                Ok(Ex::Num(n % P))
            }
            Tok::Op("(") => {
                self.i += 1;
                let e = self.expr()?;
                if self.is(",") {
                    let mut v = vec![e];
                    while self.eat(",") {
                        v.push(self.expr()?);
                    }
                    self.expect(")")?;
                    return Ok(Ex::Tuple(v));
                }
                self.expect(")")?;
                Ok(e)
            }
            Tok::Op("[") => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    v.push(self.expr()?);
                    if self.eat("]") {
                        break;
                    }
                    self.expect(",")?;
                }
                Ok(Ex::Arr(v))
            }
            Tok::Id(_) => {
                if self.eat_kw("parallel") {
                    return self.primary();
                }
                let n = self.ident()?;
                if self.eat("(") {
                    let a = self.args()?;
                    if self.eat("(") {
                        let b = self.anon_args()?;
                        return Ok(Ex::Anon(n, a, b));
                    }
                    return Ok(Ex::Call(n, a));
                }
                let mut acc = vec![];
                loop {
                    if self.eat("[") {
                        let e = self.expr()?;
                        self.expect("]")?;
                        acc.push(Acc::Idx(e));
                    } else if self.eat(".") {
                        let n = self.ident_any()?;
                        acc.push(Acc::Dot(n));
                    } else {
                        break;
                    }
                }
                Ok(Ex::Path(n, acc))
            }
            _ => self.err("expected an expression"),
        }
    }
    fn ident_any(&mut self) -> R<u32> {
        if let Tok::Id(i) = *self.peek() {
            self.i += 1;
            Ok(i)
        } else {
            self.err("expected a name")
        }
    }
    fn unary(&mut self) -> R<Ex> {
        for o in ["-", "!", "~"] {
            if self.is(o) {
                self.i += 1;
                let e = self.unary()?;
                let o: &'static str = OPS.iter().find(|x| **x == o).unwrap();
                return Ok(Ex::Un(o, Box::new(e)));
            }
        }
        if self.eat("+") {
            return self.unary();
        }
        let b = self.primary()?;
        if self.eat("**") {
            let e = self.unary()?;
            return Ok(Ex::Bin("**", Box::new(b), Box::new(e)));
        }
        Ok(b)
    }
    fn bin(&mut self, lvl: usize) -> R<Ex> {
        const LV: &[&[&str]] = &[
            &["||"],
            &["&&"],
            &["==", "!=", "<", ">", "<=", ">="],
            &["|"],
            &["^"],
            &["&"],
            &["<<", ">>"],
            &["+", "-"],
            &["*", "/", "\\", "%"],
        ];
        if lvl == LV.len() {
            return self.unary();
        }
        let mut l = self.bin(lvl + 1)?;
        loop {
            let mut hit = None;
            if let Tok::Op(o) = self.peek() {
                if LV[lvl].contains(o) {
                    hit = Some(*o);
                }
            }
            match hit {
                Some(o) => {
                    self.i += 1;
                    let r = self.bin(lvl + 1)?;
                    l = Ex::Bin(o, Box::new(l), Box::new(r));
                }
                None => return Ok(l),
            }
        }
    }
    fn expr(&mut self) -> R<Ex> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.expect(":")?;
            let b = self.expr()?;
            return Ok(Ex::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn block(&mut self) -> R<Vec<L>> {
        self.expect("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            if *self.peek() == Tok::Eof {
                return self.err("block is not closed");
            }
            v.push(self.stmt()?);
        }
        Ok(v)
    }
    fn stmt(&mut self) -> R<L> {
        let line = self.line();
        let st = self.stmt0()?;
        Ok(L { line, st })
    }
    fn stmt0(&mut self) -> R<St> {
        if self.is("{") {
            return Ok(St::Block(self.block()?));
        }
        if self.eat(";") {
            return Ok(St::Nop);
        }
        if self.eat_kw("for") {
            self.expect("(")?;
            let line = self.line();
            let init = L { line, st: self.simple()? };
            self.expect(";")?;
            let c = self.expr()?;
            self.expect(";")?;
            let line = self.line();
            let step = L { line, st: self.simple()? };
            self.expect(")")?;
            let b = self.stmt()?;
            return Ok(St::For(Box::new(init), c, Box::new(step), Box::new(b)));
        }
        if self.eat_kw("while") {
            self.expect("(")?;
            let c = self.expr()?;
            self.expect(")")?;
            let b = self.stmt()?;
            return Ok(St::While(c, Box::new(b)));
        }
        if self.eat_kw("if") {
            self.expect("(")?;
            let c = self.expr()?;
            self.expect(")")?;
            let a = self.stmt()?;
            let b = if self.eat_kw("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok(St::If(c, Box::new(a), b));
        }
        if self.eat_kw("return") {
            let e = self.expr()?;
            self.expect(";")?;
            return Ok(St::Return(e));
        }
        if self.eat_kw("assert") {
            self.expect("(")?;
            let e = self.expr()?;
            self.expect(")")?;
            self.expect(";")?;
            return Ok(St::Assert(e));
        }
        if self.eat_kw("log") {
            self.expect("(")?;
            let mut depth = 1;
            while depth > 0 {
                if self.is("(") {
                    depth += 1;
                } else if self.is(")") {
                    depth -= 1;
                } else if *self.peek() == Tok::Eof {
                    return self.err("log not closed");
                }
                self.i += 1;
            }
            self.expect(";")?;
            return Ok(St::Nop);
        }
        let s = self.simple()?;
        self.expect(";")?;
        Ok(s)
    }
    fn simple(&mut self) -> R<St> {
        if self.eat_kw("signal") {
            let k = if self.eat_kw("input") {
                SigKind::Input
            } else if self.eat_kw("output") {
                SigKind::Output
            } else {
                SigKind::Mid
            };
            if self.eat("{") {
                // tags: no meaning of their own
                loop {
                    self.ident_any()?;
                    if self.eat("}") {
                        break;
                    }
                    self.expect(",")?;
                }
            }
            if self.eat("(") {
                let mut v = vec![];
                loop {
                    let n = self.ident()?;
                    v.push((n, self.dims()?));
                    if self.eat(")") {
                        break;
                    }
                    self.expect(",")?;
                }
                let init = if self.eat("<==") {
                    Some(("<==", self.expr()?))
                } else if self.eat("<--") {
                    Some(("<--", self.expr()?))
                } else {
                    None
                };
                if init.is_none() {
                    return Ok(St::Signal(k, v.into_iter().map(|(n, d)| (n, d, None)).collect()));
                }
                return Ok(St::SignalTuple(k, v, init));
            }
            let mut v = vec![];
            loop {
                let n = self.ident()?;
                let d = self.dims()?;
                let init = if self.eat("<==") {
                    Some(("<==", self.expr()?))
                } else if self.eat("<--") {
                    Some(("<--", self.expr()?))
                } else {
                    None
                };
                v.push((n, d, init));
                if !self.eat(",") {
                    break;
                }
            }
            return Ok(St::Signal(k, v));
        }
        for kw in ["var", "component"] {
            if self.eat_kw(kw) {
                let mut v = vec![];
                loop {
                    let n = self.ident()?;
                    let d = self.dims()?;
                    let init = if self.eat("=") { Some(self.expr()?) } else { None };
                    v.push((n, d, init));
                    if !self.eat(",") {
                        break;
                    }
                }
                return Ok(if kw == "var" { St::Var(v) } else { St::Component(v) });
            }
        }
        for (o, op) in [("++", "+="), ("--", "-=")] {
            if self.eat(o) {
                let e = self.primary()?;
                return Ok(St::Assign(op, e, Ex::Num(1)));
            }
        }
        let l = self.expr()?;
        let o = match self.peek() {
            Tok::Op(";") if matches!(l, Ex::Anon(..)) => return Ok(St::Bare(l)),
            Tok::Op(o) => *o,
            _ => return self.err("expected an assignment"),
        };
        self.i += 1;
        Ok(match o {
            "=" | "+=" | "-=" | "*=" | "/=" | "\\=" | "%=" | "<<=" | ">>=" | "&=" | "|=" | "^=" | "**=" => {
                let r = self.expr()?;
                St::Assign(o, l, r)
            }
            "++" => St::Assign("+=", l, Ex::Num(1)),
            "--" => St::Assign("-=", l, Ex::Num(1)),
            "<==" => {
                let r = self.expr()?;
                St::Constrain(l, r)
            }
            "==>" => {
                let r = self.expr()?;
                St::Constrain(r, l)
            }
            "<--" => {
                let r = self.expr()?;
                St::Hint(l, r)
            }
            "-->" => {
                let r = self.expr()?;
                St::Hint(r, l)
            }
            "===" => {
                let r = self.expr()?;
                St::Equal(l, r)
            }
            _ => {
                self.i -= 1;
                return self.err("expected an assignment");
            }
        })
    }
}

impl Program {
    /// Adds one source file. `trusted` marks circomlib; other templates belong to the code under test.
    pub fn add_source(&mut self, src: &str, trusted: bool, main_file: bool) -> R<()> {
        let toks = lex(src, &mut self.it)?;
        let mut p = Parser { t: &toks, i: 0, it: &mut self.it };
        loop {
            if *p.peek() == Tok::Eof {
                break;
            }
            if p.eat_kw("pragma") {
                if main_file {
                    self.pragma = true;
                }
                while !p.eat(";") {
                    if *p.peek() == Tok::Eof {
                        return p.err("pragma not closed");
                    }
                    p.i += 1;
                }
            } else if p.eat_kw("include") {
                match p.peek().clone() {
                    Tok::Str(s) => {
                        p.i += 1;
                        if main_file {
                            self.includes.push(s);
                        }
                    }
                    _ => return p.err("include needs a string"),
                }
                p.expect(";")?;
            } else if p.is_kw("template") || p.is_kw("function") {
                let function = p.is_kw("function");
                p.i += 1;
                let _ = !function && (p.eat_kw("parallel") || p.eat_kw("custom"));
                let line = p.line();
                let name = p.ident()?;
                p.expect("(")?;
                let mut params = vec![];
                if !p.eat(")") {
                    loop {
                        params.push(p.ident()?);
                        if p.eat(")") {
                            break;
                        }
                        p.expect(",")?;
                    }
                }
                let _ = p.eat_kw("parallel");
                let body = p.block()?;
                if function {
                    if self.functions.insert(name, Rc::new(Template { name, params, body, trusted })).is_some() {
                        return Err(format!("line {line}: function {} defined twice", p.it.names[name as usize]));
                    }
                    continue;
                }
                if main_file {
                    self.own_templates.push(p.it.names[name as usize].clone());
                }
                if self.templates.insert(name, Rc::new(Template { name, params, body, trusted })).is_some() {
                    return Err(format!("line {line}: template {} defined twice", p.it.names[name as usize]));
                }
            } else {
                return p.err("expected pragma, include, template or function at top level");
            }
        }
        Ok(())
    }
    pub fn template_arity(&self, name: &str) -> Option<usize> {
        let i = self.it.map.get(name)?;
        self.templates.get(i).map(|t| t.params.len())
    }
}

// ---------------------------------------------------------------- symbolic values

#[derive(Clone, Debug, Default)]
struct Lin {
    t: Vec<(u32, F)>,
    c: F,
}
impl Lin {
    fn k(c: F) -> Lin {
        Lin { t: vec![], c }
    }
    fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    fn add(&self, o: &Lin) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push(o.t[j]);
                j += 1;
            } else {
                let c = add(self.t[i].1, o.t[j].1);
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { t, c: add(self.c, o.c) }
    }
    fn scale(&self, k: F) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { t: self.t.iter().map(|&(s, c)| (s, mul(c, k))).collect(), c: mul(self.c, k) }
    }
}

#[derive(Clone, Debug)]
enum Sym {
    Lin(Lin),
    Quad(Rc<(Lin, Lin, Lin)>),
    Hint(Rc<HEx>),
}
#[derive(Debug)]
enum HEx {
    Sym(Sym),
    Un(&'static str, Sym),
    Bin(&'static str, Sym, Sym),
    Cond(Sym, Sym, Sym),
}
impl Sym {
    fn k(c: F) -> Sym {
        Sym::Lin(Lin::k(c))
    }
    fn as_const(&self) -> Option<F> {
        match self {
            Sym::Lin(l) if l.is_const() => Some(l.c),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
enum Val {
    E(Sym),
    A(Vec<Val>),
}

// ---------------------------------------------------------------- elaboration

#[derive(Clone, Debug)]
pub struct SigDecl {
    name: u32,
    kind: SigKind,
    dims: Vec<usize>,
    base: u32,
}
fn size(d: &[usize]) -> usize {
    d.iter().product()
}

struct Comp {
    tpl: Rc<Template>,
    args: Vec<Val>,
    sigs: Vec<SigDecl>,
    missing: usize,
    built: bool,
}

enum Slot {
    Var(Val),
    Sig(SigDecl),
    Comp(Vec<usize>, Vec<Option<usize>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Constrained,
    Hinted,
    Check,
}

#[derive(Clone, Copy)]
struct LinR {
    s: u32,
    e: u32,
    c: F,
}
#[derive(Clone)]
enum Rhs {
    Quad(LinR, LinR, LinR),
    Lin(LinR),
    /// x != 0 ? k / x : 0
    Inv(F, LinR),
    /// (x >> k) & 1
    Bit(F, LinR),
    Hint(Rc<HEx>),
}
struct Op {
    kind: OpKind,
    sig: u32,
    rhs: Rhs,
}

pub struct Circuit {
    ops: Vec<Op>,
    terms: Vec<(u32, F)>,
    pub n_signals: usize,
    pub inputs: Vec<(String, Vec<usize>, u32)>,
    pub outputs: Vec<(String, Vec<usize>, u32)>,
    /// (signal, emitted by a template of the code under test) for every `<--`
    pub hints: Vec<(u32, bool)>,
    /// constraint-defined signals of templates of the code under test
    pub n_constraints: usize,
    pub n_components: usize,
    pub read_flags: Vec<bool>,
}

struct El<'p> {
    prog: &'p Program,
    ops: Vec<Op>,
    terms: Vec<(u32, F)>,
    assigned: Vec<u8>,
    read: Vec<bool>,
    owner: Vec<u32>, // component that must count an input assignment, or u32::MAX
    comps: Vec<Comp>,
    hints: Vec<(u32, bool)>,
    n_constraints: usize,
    depth: usize,
    steps: usize,
    memo: HashMap<(u32, Vec<F>), Memo>,
    replayed: usize,
    ret: Option<Val>,
}

/// What building a component emitted; the same template with the same parameters emits the same, elsewhere.
struct Memo {
    ins: std::ops::Range<u32>,
    sigs: std::ops::Range<u32>,
    ops: std::ops::Range<usize>,
    hints: std::ops::Range<usize>,
    constraints: usize,
    comps: usize,
    decls: Vec<SigDecl>,
}
impl Memo {
    fn shift(&self, s: u32, ins: u32, sigs: u32) -> u32 {
        if self.ins.contains(&s) {
            s - self.ins.start + ins
        } else if self.sigs.contains(&s) {
            s - self.sigs.start + sigs
        } else {
            s
        }
    }
    fn lin(&self, l: &Lin, ins: u32, sigs: u32) -> Lin {
        let mut t: Vec<(u32, F)> = l.t.iter().map(|&(s, c)| (self.shift(s, ins, sigs), c)).collect();
        t.sort_by_key(|x| x.0);
        Lin { t, c: l.c }
    }
    fn sym(&self, s: &Sym, ins: u32, sigs: u32) -> Sym {
        match s {
            Sym::Lin(l) => Sym::Lin(self.lin(l, ins, sigs)),
            Sym::Quad(q) => Sym::Quad(Rc::new((self.lin(&q.0, ins, sigs), self.lin(&q.1, ins, sigs), self.lin(&q.2, ins, sigs)))),
            Sym::Hint(h) => Sym::Hint(self.hint(h, ins, sigs)),
        }
    }
    fn hint(&self, h: &HEx, ins: u32, sigs: u32) -> Rc<HEx> {
        Rc::new(match h {
            HEx::Sym(a) => HEx::Sym(self.sym(a, ins, sigs)),
            HEx::Un(o, a) => HEx::Un(o, self.sym(a, ins, sigs)),
            HEx::Bin(o, a, b) => HEx::Bin(o, self.sym(a, ins, sigs), self.sym(b, ins, sigs)),
            HEx::Cond(c, a, b) => HEx::Cond(self.sym(c, ins, sigs), self.sym(a, ins, sigs), self.sym(b, ins, sigs)),
        })
    }
}

struct Env {
    v: Vec<(u32, Slot)>,
    trusted: bool,
    tname: u32,
}
impl Env {
    fn find(&self, n: u32) -> Option<usize> {
        self.v.iter().rposition(|x| x.0 == n)
    }
}

const UNASSIGNED: u8 = 0;

impl<'p> El<'p> {
    fn name(&self, n: u32) -> &str {
        &self.prog.it.names[n as usize]
    }
    fn alloc(&mut self, n: usize, owner: u32) -> u32 {
        let b = self.assigned.len() as u32;
        self.assigned.resize(self.assigned.len() + n, UNASSIGNED);
        self.read.resize(self.assigned.len(), false);
        self.owner.resize(self.assigned.len(), owner);
        b
    }
    fn const_of(&self, v: &Val, what: &str) -> R<F> {
        match v {
            Val::E(s) => s.as_const().ok_or_else(|| format!("{what} depends on a signal")),
            _ => Err(format!("{what} is an array")),
        }
    }
    fn usize_of(&self, v: &Val, what: &str) -> R<usize> {
        let c = self.const_of(v, what)?;
        if c > 1 << 32 {
            return Err(format!("{what} out of range ({})", signed(c)));
        }
        Ok(c as usize)
    }

    fn unop(&self, o: &'static str, a: Sym) -> R<Sym> {
        if let Some(c) = a.as_const() {
            return Ok(Sym::k(match o {
                "-" => neg(c),
                "!" => (c == 0) as u64,
                _ => return Err(format!("unary {o} unsupported on constants")),
            }));
        }
        if o == "-" {
            return self.binop("*", a, Sym::k(P - 1));
        }
        Ok(Sym::Hint(Rc::new(HEx::Un(o, a))))
    }
    fn binop(&self, o: &'static str, a: Sym, b: Sym) -> R<Sym> {
        if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) {
            return Ok(Sym::k(const_bin(o, x, y)?));
        }
        match o {
            "+" | "-" => {
                let b = if o == "-" { self.binop("*", b, Sym::k(P - 1))? } else { b };
                match (&a, &b) {
                    (Sym::Lin(x), Sym::Lin(y)) => return Ok(Sym::Lin(x.add(y))),
                    (Sym::Quad(q), Sym::Lin(y)) | (Sym::Lin(y), Sym::Quad(q)) => {
                        return Ok(Sym::Quad(Rc::new((q.0.clone(), q.1.clone(), q.2.add(y)))))
                    }
                    _ => {}
                }
                Ok(Sym::Hint(Rc::new(HEx::Bin("+", a, b))))
            }
            "*" => {
                match (&a, &b) {
                    (Sym::Lin(x), Sym::Lin(y)) => {
                        if x.is_const() {
                            return Ok(Sym::Lin(y.scale(x.c)));
                        }
                        if y.is_const() {
                            return Ok(Sym::Lin(x.scale(y.c)));
                        }
                        return Ok(Sym::Quad(Rc::new((x.clone(), y.clone(), Lin::k(0)))));
                    }
                    (Sym::Quad(q), Sym::Lin(y)) | (Sym::Lin(y), Sym::Quad(q)) if y.is_const() => {
                        if y.c == 0 {
                            return Ok(Sym::k(0));
                        }
                        return Ok(Sym::Quad(Rc::new((q.0.scale(y.c), q.1.clone(), q.2.scale(y.c)))));
                    }
                    _ => {}
                }
                Ok(Sym::Hint(Rc::new(HEx::Bin("*", a, b))))
            }
            "/" => {
                if let Some(y) = b.as_const() {
                    if y == 0 {
                        return Err("division by zero".into());
                    }
                    return self.binop("*", a, Sym::k(inv(y)));
                }
                Ok(Sym::Hint(Rc::new(HEx::Bin("/", a, b))))
            }
            _ => Ok(Sym::Hint(Rc::new(HEx::Bin(o, a, b)))),
        }
    }

    fn sig_val(&mut self, d: &SigDecl, idx: &[usize]) -> R<Val> {
        if idx.len() > d.dims.len() {
            return Err(format!("too many indices on signal {}", self.name(d.name)));
        }
        let mut off = 0;
        for (k, &i) in idx.iter().enumerate() {
            if i >= d.dims[k] {
                return Err(format!("index {i} out of bounds (size {}) on signal {}", d.dims[k], self.name(d.name)));
            }
            off = off * d.dims[k] + i;
        }
        let rest = &d.dims[idx.len()..];
        let off = off * size(rest);
        self.sig_tree(d, d.base + off as u32, rest)
    }
    fn sig_tree(&mut self, d: &SigDecl, base: u32, dims: &[usize]) -> R<Val> {
        if dims.is_empty() {
            if self.assigned[base as usize] == UNASSIGNED {
                return Err(format!("signal {} is read but has no value assigned", self.name(d.name)));
            }
            self.read[base as usize] = true;
            return Ok(Val::E(Sym::Lin(Lin { t: vec![(base, 1)], c: 0 })));
        }
        let st = size(&dims[1..]);
        let mut v = Vec::with_capacity(dims[0]);
        for i in 0..dims[0] {
            v.push(self.sig_tree(d, base + (i * st) as u32, &dims[1..])?);
        }
        Ok(Val::A(v))
    }

    fn idxs(&mut self, acc: &[Acc], env: &mut Env) -> R<(Vec<usize>, usize)> {
        let mut v = vec![];
        let mut n = 0;
        for a in acc {
            match a {
                Acc::Idx(e) => {
                    let x = self.eval(e, env)?;
                    v.push(self.usize_of(&x, "index")?);
                    n += 1;
                }
                Acc::Dot(_) => break,
            }
        }
        Ok((v, n))
    }
    fn comp_at(&self, name: u32, dims: &[usize], cells: &[Option<usize>], idx: &[usize]) -> R<(usize, Option<usize>)> {
        if idx.len() != dims.len() {
            return Err(format!("component {} needs {} indices", self.name(name), dims.len()));
        }
        let mut off = 0;
        for (k, &i) in idx.iter().enumerate() {
            if i >= dims[k] {
                return Err(format!("index {i} out of bounds (size {}) on component {}", dims[k], self.name(name)));
            }
            off = off * dims[k] + i;
        }
        Ok((off, cells[off]))
    }

    /// An anonymous component: its outputs in declaration order.
    fn anon(&mut self, n: u32, args: &[Ex], ins: &[(Option<u32>, Ex)], env: &mut Env) -> R<Vec<Val>> {
        let ci = self.new_comp(n, args, env)?;
        let inputs: Vec<SigDecl> = self.comps[ci].sigs.iter().filter(|s| s.kind == SigKind::Input).cloned().collect();
        if inputs.len() != ins.len() {
            return Err(format!("anonymous {} gets {} inputs, has {}", self.name(n), ins.len(), inputs.len()));
        }
        let mut vals = vec![];
        for (name, x) in ins {
            vals.push((*name, self.eval(x, env)?));
        }
        for (k, (name, v)) in vals.into_iter().enumerate() {
            let d = match name {
                None => &inputs[k],
                Some(m) => inputs
                    .iter()
                    .find(|d| d.name == m)
                    .ok_or_else(|| format!("anonymous {} has no input {}", self.name(n), self.name(m)))?,
            };
            self.assign_tree(d, &[], &v, OpKind::Constrained, env.trusted)?;
        }
        if !self.comps[ci].built {
            return Err("anonymous component not fully assigned".into());
        }
        let outs: Vec<SigDecl> = self.comps[ci].sigs.iter().filter(|s| s.kind == SigKind::Output).cloned().collect();
        outs.iter().map(|d| self.sig_val(d, &[])).collect()
    }
    fn eval(&mut self, e: &Ex, env: &mut Env) -> R<Val> {
        self.steps += 1;
        if self.steps > 80_000_000 {
            return Err("elaboration step limit".into());
        }
        match e {
            Ex::Num(n) => Ok(Val::E(Sym::k(*n))),
            Ex::Arr(v) => {
                let mut o = Vec::with_capacity(v.len());
                for x in v {
                    o.push(self.eval(x, env)?);
                }
                Ok(Val::A(o))
            }
            Ex::Un(o, a) => {
                let a = self.eval_e(a, env)?;
                Ok(Val::E(self.unop(o, a)?))
            }
            Ex::Bin(o, a, b) => {
                let a = self.eval_e(a, env)?;
                let b = self.eval_e(b, env)?;
                Ok(Val::E(self.binop(o, a, b)?))
            }
            Ex::Cond(c, a, b) => {
                let c = self.eval_e(c, env)?;
                match c.as_const() {
                    Some(x) => self.eval(if x != 0 { a } else { b }, env),
                    None => {
                        let a = self.eval_e(a, env)?;
                        let b = self.eval_e(b, env)?;
                        Ok(Val::E(Sym::Hint(Rc::new(HEx::Cond(c, a, b)))))
                    }
                }
            }
            Ex::Call(n, args) => {
                let f = match self.prog.functions.get(n) {
                    Some(f) => f.clone(),
                    None if self.prog.templates.contains_key(n) => {
                        return Err(format!("{} is instantiated where a value is needed", self.name(*n)))
                    }
                    None => return Err(format!("unknown function {}", self.name(*n))),
                };
                self.call(&f, args, env)
            }
            Ex::Anon(n, args, ins) => {
                let mut outs = self.anon(*n, args, ins, env)?;
                if outs.len() != 1 {
                    return Err(format!("anonymous {} used as a value has {} outputs", self.name(*n), outs.len()));
                }
                Ok(outs.remove(0))
            }
            Ex::Tuple(_) => Err("a tuple is used as a value".into()),
            Ex::Path(n, acc) => {
                let (idx, used) = self.idxs(acc, env)?;
                let p = match env.find(*n) {
                    Some(p) => p,
                    None => return Err(format!("undeclared name {}", self.name(*n))),
                };
                match &env.v[p].1 {
                    Slot::Var(v) => {
                        if used != acc.len() {
                            return Err(format!("{} is not a component", self.name(*n)));
                        }
                        let mut v = v;
                        for i in &idx {
                            match v {
                                Val::A(x) => {
                                    v = x.get(*i).ok_or_else(|| {
                                        format!("index {i} out of bounds on variable {}", self.name(*n))
                                    })?
                                }
                                _ => return Err(format!("variable {} is not an array", self.name(*n))),
                            }
                        }
                        Ok(v.clone())
                    }
                    Slot::Sig(d) => {
                        if used != acc.len() {
                            return Err(format!("{} is not a component", self.name(*n)));
                        }
                        let d = d.clone();
                        self.sig_val(&d, &idx)
                    }
                    Slot::Comp(dims, cells) => {
                        let (_, c) = self.comp_at(*n, dims, cells, &idx)?;
                        let c = c.ok_or_else(|| format!("component {} is not instantiated", self.name(*n)))?;
                        let (d, rest) = self.comp_sig(c, &acc[used..], *n)?;
                        if d.kind == SigKind::Output && !self.comps[c].built {
                            return Err(format!(
                                "output {}.{} read before all inputs of the component are assigned",
                                self.name(*n),
                                self.name(d.name)
                            ));
                        }
                        let (idx2, used2) = self.idxs(rest, env)?;
                        if used2 != rest.len() {
                            return Err("bad access path".into());
                        }
                        self.sig_val(&d, &idx2)
                    }
                }
            }
        }
    }
    fn call(&mut self, f: &Rc<Template>, args: &[Ex], env: &mut Env) -> R<Val> {
        if f.params.len() != args.len() {
            return Err(format!("function {} takes {} parameters, got {}", self.name(f.name), f.params.len(), args.len()));
        }
        let mut inner = Env { v: vec![], trusted: f.trusted, tname: f.name };
        for (p, x) in f.params.iter().zip(args) {
            let v = self.eval(x, env)?;
            inner.v.push((*p, Slot::Var(v)));
        }
        self.depth += 1;
        if self.depth > 200 {
            return Err("function recursion too deep".into());
        }
        for l in &f.body {
            self.exec(l, &mut inner, usize::MAX, &mut 0)?;
            if let Some(v) = self.ret.take() {
                self.depth -= 1;
                return Ok(v);
            }
        }
        Err(format!("function {} ends without a return", self.name(f.name)))
    }
    fn comp_sig<'x>(&self, c: usize, acc: &'x [Acc], n: u32) -> R<(SigDecl, &'x [Acc])> {
        match acc.first() {
            Some(Acc::Dot(f)) => {
                for d in &self.comps[c].sigs {
                    if d.name == *f && d.kind != SigKind::Mid {
                        return Ok((d.clone(), &acc[1..]));
                    }
                }
                if !self.comps[c].built {
                    return Err(format!(
                        "{}.{} accessed before all inputs are assigned (or no such port)",
                        self.name(n),
                        self.name(*f)
                    ));
                }
                Err(format!("component {} has no port {}", self.name(n), self.name(*f)))
            }
            _ => Err(format!("component {} used as a value", self.name(n))),
        }
    }
    fn eval_e(&mut self, e: &Ex, env: &mut Env) -> R<Sym> {
        match self.eval(e, env)? {
            Val::E(s) => Ok(s),
            Val::A(_) => Err("array used as a scalar".into()),
        }
    }

    fn lin(&mut self, l: &Lin) -> LinR {
        let s = self.terms.len() as u32;
        self.terms.extend_from_slice(&l.t);
        LinR { s, e: self.terms.len() as u32, c: l.c }
    }
    fn rhs(&mut self, s: &Sym) -> Rhs {
        match s {
            Sym::Lin(l) => Rhs::Lin(self.lin(l)),
            Sym::Quad(q) => Rhs::Quad(self.lin(&q.0), self.lin(&q.1), self.lin(&q.2)),
            Sym::Hint(h) => {
                if let HEx::Cond(c, a, b) = &**h {
                    if let (Sym::Hint(c), Sym::Hint(a), Some(0)) = (c, a, b.as_const()) {
                        if let (HEx::Bin("!=", Sym::Lin(x), z), HEx::Bin("/", k, Sym::Lin(y))) = (&**c, &**a) {
                            if let (Some(0), Some(k)) = (z.as_const(), k.as_const()) {
                                if x.t == y.t && x.c == y.c {
                                    return Rhs::Inv(k, self.lin(x));
                                }
                            }
                        }
                    }
                }
                if let HEx::Bin("&", Sym::Hint(a), one) = &**h {
                    if let (HEx::Bin(">>", Sym::Lin(x), k), Some(1)) = (&**a, one.as_const()) {
                        if let Some(k) = k.as_const().filter(|&k| k < 64) {
                            return Rhs::Bit(k, self.lin(x));
                        }
                    }
                }
                Rhs::Hint(h.clone())
            }
        }
    }

    fn assign_one(&mut self, sig: u32, s: &Sym, kind: OpKind, trusted: bool, name: u32) -> R<()> {
        if self.assigned[sig as usize] != UNASSIGNED {
            return Err(format!("signal {} is assigned twice", self.name(name)));
        }
        if kind == OpKind::Constrained {
            if let Sym::Hint(_) = s {
                return Err(format!("non-quadratic constraint for signal {}", self.name(name)));
            }
            self.n_constraints += 1;
        } else {
            self.hints.push((sig, !trusted));
        }
        let rhs = self.rhs(s);
        self.ops.push(Op { kind, sig, rhs });
        self.assigned[sig as usize] = if kind == OpKind::Constrained { 1 } else { 2 };
        let o = self.owner[sig as usize];
        if o != u32::MAX {
            self.comps[o as usize].missing -= 1;
            if self.comps[o as usize].missing == 0 {
                self.build(o as usize)?;
            }
        }
        Ok(())
    }
    fn assign_tree(&mut self, d: &SigDecl, idx: &[usize], v: &Val, kind: OpKind, trusted: bool) -> R<()> {
        if idx.len() > d.dims.len() {
            return Err(format!("too many indices on signal {}", self.name(d.name)));
        }
        let mut off = 0;
        for (k, &i) in idx.iter().enumerate() {
            if i >= d.dims[k] {
                return Err(format!("index {i} out of bounds (size {}) on signal {}", d.dims[k], self.name(d.name)));
            }
            off = off * d.dims[k] + i;
        }
        let rest = d.dims[idx.len()..].to_vec();
        let base = d.base + (off * size(&rest)) as u32;
        self.assign_rec(d.name, base, &rest, v, kind, trusted)
    }
    fn assign_rec(&mut self, name: u32, base: u32, dims: &[usize], v: &Val, kind: OpKind, trusted: bool) -> R<()> {
        match (dims.is_empty(), v) {
            (true, Val::E(s)) => self.assign_one(base, s, kind, trusted, name),
            (false, Val::A(a)) => {
                if a.len() != dims[0] {
                    return Err(format!(
                        "array of length {} assigned to {} (length {})",
                        a.len(),
                        self.name(name),
                        dims[0]
                    ));
                }
                let st = size(&dims[1..]);
                for (i, x) in a.iter().enumerate() {
                    self.assign_rec(name, base + (i * st) as u32, &dims[1..], x, kind, trusted)?;
                }
                Ok(())
            }
            _ => Err(format!("dimension mismatch assigning {}", self.name(name))),
        }
    }

    fn new_comp(&mut self, n: u32, args: &[Ex], env: &mut Env) -> R<usize> {
        let tpl = self
            .prog
            .templates
            .get(&n)
            .cloned()
            .ok_or_else(|| format!("unknown template {}", self.name(n)))?;
        if tpl.params.len() != args.len() {
            return Err(format!(
                "template {} takes {} parameters, got {}",
                self.name(n),
                tpl.params.len(),
                args.len()
            ));
        }
        let mut a = vec![];
        for x in args {
            let v = self.eval(x, env)?;
            constant(&v)?;
            a.push(v);
        }
        self.make(tpl, a)
    }
    fn make(&mut self, tpl: Rc<Template>, args: Vec<Val>) -> R<usize> {
        let ci = self.comps.len();
        self.comps.push(Comp { tpl: tpl.clone(), args: args.clone(), sigs: vec![], missing: 0, built: false });
        // allocate the inputs: declarations at the top level of the body, with the parameters in scope
        let mut env = Env { v: vec![], trusted: tpl.trusted, tname: tpl.name };
        for (p, a) in tpl.params.iter().zip(&args) {
            env.v.push((*p, Slot::Var(a.clone())));
        }
        let mut missing = 0;
        let last = tpl.body.iter().rposition(|l| matches!(l.st, St::Signal(SigKind::Input, _))).unwrap_or(0);
        for (at, l) in tpl.body.iter().enumerate() {
            match &l.st {
                St::Signal(SigKind::Input, ds) => {
                    for (name, dims, init) in ds {
                        if init.is_some() {
                            return Err("input signal with an initial value".into());
                        }
                        let mut dd = vec![];
                        for x in dims {
                            let v = self.eval(x, &mut env)?;
                            dd.push(self.usize_of(&v, "dimension")?);
                        }
                        let n = size(&dd);
                        let base = self.alloc(n, ci as u32);
                        missing += n;
                        self.comps[ci].sigs.push(SigDecl { name: *name, kind: SigKind::Input, dims: dd, base });
                    }
                }
                St::Var(ds) => {
                    // variables that input dimensions may use; anything not yet evaluable is left to the real run
                    for (name, dims, init) in ds {
                        if dims.is_empty() {
                            if let Some(i) = init {
                                if let Ok(v) = self.eval(i, &mut env) {
                                    env.v.push((*name, Slot::Var(v)));
                                }
                            }
                        }
                    }
                }
                St::For(..) | St::While(..) | St::If(..) | St::Block(_) | St::Assign(..) if at < last => {
                    let _ = self.exec(l, &mut env, usize::MAX, &mut 0);
                }
                _ => {}
            }
        }
        self.comps[ci].missing = missing;
        if missing == 0 {
            self.build(ci)?;
        }
        Ok(ci)
    }
    fn build(&mut self, ci: usize) -> R<()> {
        let mut key = (self.comps[ci].tpl.name, vec![]);
        for a in &self.comps[ci].args {
            encode(a, &mut key.1);
        }
        let ins = self.comps[ci].sigs.first().map_or(0, |d| d.base);
        if let Some(m) = self.memo.remove(&key) {
            self.replay(ci, ins, &m);
            self.memo.insert(key, m);
            return Ok(());
        }
        let n_in: usize = self.comps[ci].sigs.iter().map(|d| size(&d.dims)).sum();
        let (s0, o0, h0, k0) = (self.assigned.len() as u32, self.ops.len(), self.hints.len(), self.n_constraints);
        let c0 = self.comps.len() + self.replayed;
        self.build_new(ci)?;
        self.memo.insert(
            key,
            Memo {
                ins: ins..ins + n_in as u32,
                sigs: s0..self.assigned.len() as u32,
                ops: o0..self.ops.len(),
                hints: h0..self.hints.len(),
                constraints: self.n_constraints - k0,
                comps: self.comps.len() + self.replayed - c0,
                decls: self.comps[ci].sigs.clone(),
            },
        );
        Ok(())
    }
    fn replay(&mut self, ci: usize, ins: u32, m: &Memo) {
        let sigs = self.assigned.len() as u32;
        self.alloc(m.sigs.len(), u32::MAX);
        for k in 0..m.sigs.len() {
            let from = m.sigs.start as usize + k;
            self.assigned[sigs as usize + k] = self.assigned[from];
            self.read[sigs as usize + k] = self.read[from];
        }
        for k in 0..m.ins.len() {
            self.read[ins as usize + k] |= self.read[m.ins.start as usize + k];
        }
        for i in m.hints.clone() {
            let (s, t) = self.hints[i];
            self.hints.push((m.shift(s, ins, sigs), t));
        }
        self.n_constraints += m.constraints;
        self.replayed += m.comps;
        for i in m.ops.clone() {
            let mut rhs = self.ops[i].rhs.clone();
            match &mut rhs {
                Rhs::Quad(a, b, c) => {
                    for l in [a, b, c] {
                        *l = self.shift_lin(l, m, ins, sigs);
                    }
                }
                Rhs::Lin(l) | Rhs::Inv(_, l) | Rhs::Bit(_, l) => *l = self.shift_lin(l, m, ins, sigs),
                Rhs::Hint(h) => *h = m.hint(h, ins, sigs),
            }
            let (kind, sig) = (self.ops[i].kind, m.shift(self.ops[i].sig, ins, sigs));
            self.ops.push(Op { kind, sig, rhs });
        }
        self.comps[ci].sigs = m
            .decls
            .iter()
            .map(|d| SigDecl { base: m.shift(d.base, ins, sigs), ..d.clone() })
            .collect();
        self.comps[ci].built = true;
    }
    fn shift_lin(&mut self, l: &LinR, m: &Memo, ins: u32, sigs: u32) -> LinR {
        let s = self.terms.len() as u32;
        for i in l.s..l.e {
            let (x, c) = self.terms[i as usize];
            self.terms.push((m.shift(x, ins, sigs), c));
        }
        LinR { s, e: self.terms.len() as u32, c: l.c }
    }
    fn build_new(&mut self, ci: usize) -> R<()> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("template recursion too deep".into());
        }
        let tpl = self.comps[ci].tpl.clone();
        let mut env = Env { v: vec![], trusted: tpl.trusted, tname: tpl.name };
        for (p, a) in tpl.params.iter().zip(&self.comps[ci].args) {
            env.v.push((*p, Slot::Var(a.clone())));
        }
        let mut next_input = 0;
        for l in &tpl.body {
            self.exec(l, &mut env, ci, &mut next_input)?;
        }
        // every component created in the body must have been completed, every output assigned
        for (n, s) in &env.v {
            if let Slot::Comp(_, cells) = s {
                for c in cells.iter().flatten() {
                    if !self.comps[*c].built {
                        return Err(format!(
                            "template {}: component {} never gets all its inputs",
                            self.name(tpl.name),
                            self.name(*n)
                        ));
                    }
                }
            }
        }
        let sigs = self.comps[ci].sigs.clone();
        for d in &sigs {
            if d.kind == SigKind::Output {
                for k in 0..size(&d.dims) {
                    if self.assigned[d.base as usize + k] == UNASSIGNED {
                        return Err(format!(
                            "template {}: output {} is never assigned",
                            self.name(tpl.name),
                            self.name(d.name)
                        ));
                    }
                }
            }
        }
        self.comps[ci].built = true;
        self.depth -= 1;
        Ok(())
    }

    fn exec(&mut self, l: &L, env: &mut Env, ci: usize, ni: &mut usize) -> R<()> {
        self.exec0(l, env, ci, ni).map_err(|m| {
            if m.starts_with("template ") || m.contains(" line ") {
                m
            } else {
                format!("template {} line {}: {}", self.name(env.tname), l.line, m)
            }
        })
    }
    fn declare(&self, env: &Env, name: u32, mark: usize) -> R<()> {
        if env.v[mark..].iter().any(|x| x.0 == name) {
            return Err(format!("{} is declared twice", self.name(name)));
        }
        Ok(())
    }
    fn block(&mut self, b: &[L], env: &mut Env, ci: usize, ni: &mut usize) -> R<()> {
        let mark = env.v.len();
        for l in b {
            self.exec(l, env, ci, ni)?;
            if self.ret.is_some() {
                return Ok(());
            }
        }
        for (n, s) in &env.v[mark..] {
            if let Slot::Comp(_, cells) = s {
                if cells.iter().flatten().any(|c| !self.comps[*c].built) {
                    return Err(format!("component {} never gets all its inputs", self.name(*n)));
                }
            }
        }
        env.v.truncate(mark);
        Ok(())
    }
    fn exec0(&mut self, l: &L, env: &mut Env, ci: usize, ni: &mut usize) -> R<()> {
        self.steps += 1;
        if ci == usize::MAX && matches!(l.st, St::Signal(..) | St::SignalTuple(..) | St::Component(_) | St::Constrain(..) | St::Hint(..) | St::Equal(..) | St::Bare(_)) {
            return Err("a function uses signals or components".into());
        }
        match &l.st {
            St::Nop => Ok(()),
            St::Return(e) => {
                if ci != usize::MAX {
                    return Err("return outside a function".into());
                }
                let v = self.eval(e, env)?;
                self.ret = Some(v);
                Ok(())
            }
            St::Bare(e) => match e {
                Ex::Anon(n, args, ins) => self.anon(*n, args, ins, env).map(|_| ()),
                _ => Err("a value is not used".into()),
            },
            St::SignalTuple(kind, ds, init) => {
                let plain = St::Signal(*kind, ds.iter().map(|(n, d)| (*n, d.clone(), None)).collect());
                self.exec0(&L { line: l.line, st: plain }, env, ci, ni)?;
                if let Some((o, e)) = init {
                    let lhs = Ex::Tuple(ds.iter().map(|(n, _)| Ex::Path(*n, vec![])).collect());
                    let st = if *o == "<==" { St::Constrain(lhs, e.clone()) } else { St::Hint(lhs, e.clone()) };
                    self.exec0(&L { line: l.line, st }, env, ci, ni)?;
                }
                Ok(())
            }
            St::Block(b) => self.block(b, env, ci, ni),
            St::Assert(e) => {
                let v = self.eval_e(e, env)?;
                match v.as_const() {
                    Some(0) => Err("assert failed".into()),
                    _ => Ok(()),
                }
            }
            St::If(c, a, b) => {
                let v = self.eval_e(c, env)?;
                let c = v.as_const().ok_or("condition depends on a signal")?;
                if c != 0 {
                    self.block(std::slice::from_ref(a), env, ci, ni)
                } else if let Some(b) = b {
                    self.block(std::slice::from_ref(b), env, ci, ni)
                } else {
                    Ok(())
                }
            }
            St::For(init, c, step, body) => {
                let mark = env.v.len();
                self.exec(init, env, ci, ni)?;
                loop {
                    let v = self.eval_e(c, env)?;
                    let c = v.as_const().ok_or("loop condition depends on a signal")?;
                    if c == 0 {
                        break;
                    }
                    self.block(std::slice::from_ref(body), env, ci, ni)?;
                    if self.ret.is_some() {
                        return Ok(());
                    }
                    self.exec(step, env, ci, ni)?;
                }
                env.v.truncate(mark);
                Ok(())
            }
            St::While(c, body) => loop {
                let v = self.eval_e(c, env)?;
                let c = v.as_const().ok_or("loop condition depends on a signal")?;
                if c == 0 {
                    return Ok(());
                }
                self.block(std::slice::from_ref(body), env, ci, ni)?;
                if self.ret.is_some() {
                    return Ok(());
                }
            },
            St::Signal(kind, ds) => {
                for (name, dims, init) in ds {
                    self.declare(env, *name, 0)?;
                    if *kind == SigKind::Input {
                        let d = self.comps[ci]
                            .sigs
                            .iter()
                            .filter(|s| s.kind == SigKind::Input)
                            .nth(*ni)
                            .cloned()
                            .ok_or("input signal declared inside a block")?;
                        *ni += 1;
                        if d.name != *name {
                            return Err("input signal declared inside a block".into());
                        }
                        env.v.push((*name, Slot::Sig(d)));
                        continue;
                    }
                    let mut dd = vec![];
                    for x in dims {
                        let v = self.eval(x, env)?;
                        dd.push(self.usize_of(&v, "dimension")?);
                    }
                    let base = self.alloc(size(&dd), u32::MAX);
                    let d = SigDecl { name: *name, kind: *kind, dims: dd, base };
                    self.comps[ci].sigs.push(d.clone());
                    env.v.push((*name, Slot::Sig(d.clone())));
                    if let Some((o, e)) = init {
                        let v = self.eval(e, env)?;
                        let k = if *o == "<==" { OpKind::Constrained } else { OpKind::Hinted };
                        self.assign_tree(&d, &[], &v, k, env.trusted)?;
                    }
                }
                Ok(())
            }
            St::Var(ds) => {
                for (name, dims, init) in ds {
                    let v = match init {
                        Some(e) => self.eval(e, env)?,
                        None => {
                            let mut dd = vec![];
                            for x in dims {
                                let v = self.eval(x, env)?;
                                dd.push(self.usize_of(&v, "dimension")?);
                            }
                            fn zeros(d: &[usize]) -> Val {
                                if d.is_empty() {
                                    Val::E(Sym::k(0))
                                } else {
                                    Val::A(vec![zeros(&d[1..]); d[0]])
                                }
                            }
                            zeros(&dd)
                        }
                    };
                    env.v.push((*name, Slot::Var(v)));
                }
                Ok(())
            }
            St::Component(ds) => {
                for (name, dims, init) in ds {
                    self.declare(env, *name, 0)?;
                    let mut dd = vec![];
                    for x in dims {
                        let v = self.eval(x, env)?;
                        dd.push(self.usize_of(&v, "dimension")?);
                    }
                    let n = size(&dd);
                    let mut cells = vec![None; n];
                    if let Some(e) = init {
                        match e {
                            Ex::Call(t, a) if dd.is_empty() => cells[0] = Some(self.new_comp(*t, a, env)?),
                            _ => return Err("component initialised with something else than a template".into()),
                        }
                    }
                    env.v.push((*name, Slot::Comp(dd, cells)));
                }
                Ok(())
            }
            St::Assign(o, lhs, rhs) => {
                let (n, acc) = match lhs {
                    Ex::Path(n, acc) => (*n, acc),
                    _ => return Err("left side of an assignment is not a name".into()),
                };
                let p = env.find(n).ok_or_else(|| format!("undeclared name {}", self.name(n)))?;
                let (idx, used) = self.idxs(acc, env)?;
                if used != acc.len() {
                    return Err("= used on a port".into());
                }
                if let Slot::Comp(dims, cells) = &env.v[p].1 {
                    let (off, cur) = self.comp_at(n, dims, cells, &idx)?;
                    if *o != "=" || cur.is_some() {
                        return Err(format!("component {} is instantiated twice", self.name(n)));
                    }
                    let c = match rhs {
                        Ex::Call(t, a) => self.new_comp(*t, a, env)?,
                        _ => return Err("component assigned something else than a template".into()),
                    };
                    if let Slot::Comp(_, cells) = &mut env.v[p].1 {
                        cells[off] = Some(c);
                    }
                    return Ok(());
                }
                if let Slot::Sig(_) = &env.v[p].1 {
                    return Err(format!("= used on signal {}", self.name(n)));
                }
                let mut r = self.eval(rhs, env)?;
                if *o != "=" {
                    let old = match self.eval(lhs, env)? {
                        Val::E(s) => s,
                        _ => return Err("compound assignment on an array".into()),
                    };
                    let rr = match r {
                        Val::E(s) => s,
                        _ => return Err("compound assignment with an array".into()),
                    };
                    let bo = OPS.iter().find(|x| **x == &o[..o.len() - 1]).unwrap();
                    r = Val::E(self.binop(bo, old, rr)?);
                }
                if let Slot::Var(v) = &mut env.v[p].1 {
                    let mut v = v;
                    for i in &idx {
                        match v {
                            Val::A(x) => v = x.get_mut(*i).ok_or("index out of bounds on variable")?,
                            _ => return Err("variable is not an array".into()),
                        }
                    }
                    *v = r;
                }
                Ok(())
            }
            St::Constrain(lhs, rhs) | St::Hint(lhs, rhs) => {
                let kind = if matches!(l.st, St::Constrain(..)) { OpKind::Constrained } else { OpKind::Hinted };
                if let Ex::Tuple(ls) = lhs {
                    let vals = match rhs {
                        Ex::Anon(n, args, ins) => self.anon(*n, args, ins, env)?,
                        r if ls.len() == 1 => vec![self.eval(r, env)?],
                        Ex::Tuple(rs) => {
                            let mut v = vec![];
                            for r in rs {
                                v.push(self.eval(r, env)?);
                            }
                            v
                        }
                        _ => return Err("a tuple is assigned something else".into()),
                    };
                    if vals.len() != ls.len() {
                        return Err(format!("a tuple of {} is assigned {} values", ls.len(), vals.len()));
                    }
                    for (l, v) in ls.iter().zip(vals) {
                        self.assign_sig(l, v, kind, env)?;
                    }
                    return Ok(());
                }
                let v = self.eval(rhs, env)?;
                self.assign_sig(lhs, v, kind, env)
            }
            St::Equal(a, b) => {
                let a = self.eval(a, env)?;
                let b = self.eval(b, env)?;
                self.equal(&a, &b)
            }
        }
    }
    fn assign_sig(&mut self, lhs: &Ex, v: Val, kind: OpKind, env: &mut Env) -> R<()> {
        let (n, acc) = match lhs {
            Ex::Path(n, acc) => (*n, acc),
            _ => return Err("left side of a signal assignment is not a signal".into()),
        };
        if self.name(n) == "_" {
            return Ok(());
        }
        let (idx, used) = self.idxs(acc, env)?;
        let p = env.find(n).ok_or_else(|| format!("undeclared name {}", self.name(n)))?;
        let (d, idx) = match &env.v[p].1 {
            Slot::Sig(d) => {
                if used != acc.len() {
                    return Err("bad access path".into());
                }
                if d.kind == SigKind::Input {
                    return Err(format!("input {} assigned inside its template", self.name(n)));
                }
                (d.clone(), idx)
            }
            Slot::Comp(dims, cells) => {
                let (_, c) = self.comp_at(n, dims, cells, &idx)?;
                let c = c.ok_or_else(|| format!("component {} is not instantiated", self.name(n)))?;
                let (d, rest) = self.comp_sig(c, &acc[used..], n)?;
                if d.kind != SigKind::Input {
                    return Err(format!("output {}.{} assigned", self.name(n), self.name(d.name)));
                }
                let (i2, u2) = self.idxs(rest, env)?;
                if u2 != rest.len() {
                    return Err("bad access path".into());
                }
                (d, i2)
            }
            Slot::Var(_) => return Err(format!("signal assignment to variable {}", self.name(n))),
        };
        self.assign_tree(&d, &idx, &v, kind, env.trusted)
    }
    fn equal(&mut self, a: &Val, b: &Val) -> R<()> {
        match (a, b) {
            (Val::E(x), Val::E(y)) => {
                let d = self.binop("-", x.clone(), y.clone())?;
                if let Sym::Hint(_) = d {
                    return Err("non-quadratic constraint in ===".into());
                }
                let rhs = self.rhs(&d);
                self.n_constraints += 1;
                self.ops.push(Op { kind: OpKind::Check, sig: 0, rhs });
                Ok(())
            }
            (Val::A(x), Val::A(y)) if x.len() == y.len() => {
                for (p, q) in x.iter().zip(y) {
                    self.equal(p, q)?;
                }
                Ok(())
            }
            _ => Err("dimension mismatch in ===".into()),
        }
    }
}

fn constant(v: &Val) -> R<()> {
    match v {
        Val::E(s) => s.as_const().map(|_| ()).ok_or_else(|| "template parameter depends on a signal".to_string()),
        Val::A(x) => x.iter().try_for_each(constant),
    }
}
/// A constant, possibly an array, as a flat key.
fn encode(v: &Val, out: &mut Vec<F>) {
    match v {
        Val::E(s) => out.extend([0, s.as_const().unwrap_or(0)]),
        Val::A(x) => {
            out.extend([1, x.len() as u64]);
            x.iter().for_each(|y| encode(y, out));
        }
    }
}

fn const_bin(o: &str, x: F, y: F) -> R<F> {
    let b = |v: bool| v as u64;
    Ok(match o {
        "+" => add(x, y),
        "-" => sub(x, y),
        "*" => mul(x, y),
        "/" => {
            if y == 0 {
                return Err("division by zero".into());
            }
            mul(x, inv(y))
        }
        "\\" => {
            if y == 0 {
                return Err("division by zero".into());
            }
            x / y
        }
        "%" => {
            if y == 0 {
                return Err("division by zero".into());
            }
            x % y
        }
        "**" => pow(x, y),
        "<<" => {
            if y > 62 {
                return Err("shift too large".into());
            }
            ((x as u128) << y).rem_euclid(P as u128) as u64
        }
        ">>" => {
            if y > 63 {
                0
            } else {
                x >> y
            }
        }
        "&" => x & y,
        "|" => (x | y) % P,
        "^" => (x ^ y) % P,
        "==" => b(x == y),
        "!=" => b(x != y),
        "<" => b(signed(x) < signed(y)),
        ">" => b(signed(x) > signed(y)),
        "<=" => b(signed(x) <= signed(y)),
        ">=" => b(signed(x) >= signed(y)),
        "&&" => b(x != 0 && y != 0),
        "||" => b(x != 0 || y != 0),
        _ => return Err(format!("operator {o} unsupported")),
    })
}

impl Program {
    pub fn instantiate(&self, template: &str, args: &[u64]) -> R<Circuit> {
        let n = *self.it.map.get(template).ok_or_else(|| format!("no template {template}"))?;
        let tpl = self.templates.get(&n).cloned().ok_or_else(|| format!("no template {template}"))?;
        if tpl.params.len() != args.len() {
            return Err(format!("template {template} takes {} parameters, expected {}", tpl.params.len(), args.len()));
        }
        let mut el = El {
            prog: self,
            ops: vec![],
            terms: vec![],
            assigned: vec![1], // signal 0: constant one slot, unused
            read: vec![true],
            owner: vec![u32::MAX],
            comps: vec![],
            hints: vec![],
            n_constraints: 0,
            depth: 0,
            steps: 0,
            memo: HashMap::new(),
            replayed: 0,
            ret: None,
        };
        let ci = el.make(tpl, args.iter().map(|a| Val::E(Sym::k(*a))).collect())?;
        if !el.comps[ci].built {
            // main inputs come from outside
            let ins: Vec<SigDecl> = el.comps[ci].sigs.clone();
            for d in &ins {
                for k in 0..size(&d.dims) {
                    el.assigned[d.base as usize + k] = 3;
                }
            }
            el.comps[ci].missing = 0;
            el.build(ci)?;
        }
        let pick = |k: SigKind| {
            el.comps[ci]
                .sigs
                .iter()
                .filter(|d| d.kind == k)
                .map(|d| (self.it.names[d.name as usize].clone(), d.dims.clone(), d.base))
                .collect::<Vec<_>>()
        };
        let inputs = pick(SigKind::Input);
        let outputs = pick(SigKind::Output);
        Ok(Circuit {
            n_signals: el.assigned.len(),
            inputs,
            outputs,
            hints: el.hints,
            n_constraints: el.n_constraints,
            n_components: el.comps.len() + el.replayed,
            ops: el.ops,
            terms: el.terms,
            read_flags: el.read,
        })
    }
}

// ---------------------------------------------------------------- execution

impl Circuit {
    #[inline]
    fn dot(&self, l: &LinR, w: &[F]) -> F {
        let mut s = l.c;
        for &(i, c) in &self.terms[l.s as usize..l.e as usize] {
            let v = w[i as usize];
            if v != 0 {
                s = add(s, mul(c, v));
            }
        }
        s
    }
    fn sym(&self, s: &Sym, w: &[F]) -> F {
        let lin = |l: &Lin| {
            let mut r = l.c;
            for &(i, c) in &l.t {
                r = add(r, mul(c, w[i as usize]));
            }
            r
        };
        match s {
            Sym::Lin(l) => lin(l),
            Sym::Quad(q) => add(mul(lin(&q.0), lin(&q.1)), lin(&q.2)),
            Sym::Hint(h) => self.hint(h, w),
        }
    }
    fn hint(&self, h: &HEx, w: &[F]) -> F {
        match h {
            HEx::Sym(s) => self.sym(s, w),
            HEx::Un(o, a) => {
                let a = self.sym(a, w);
                match *o {
                    "-" => neg(a),
                    "!" => (a == 0) as u64,
                    _ => 0,
                }
            }
            HEx::Bin(o, a, b) => {
                let a = self.sym(a, w);
                let b = self.sym(b, w);
                const_bin(o, a, b).unwrap_or(0)
            }
            HEx::Cond(c, a, b) => {
                if self.sym(c, w) != 0 {
                    self.sym(a, w)
                } else {
                    self.sym(b, w)
                }
            }
        }
    }
    #[inline]
    fn value(&self, r: &Rhs, w: &[F]) -> F {
        match r {
            Rhs::Lin(l) => self.dot(l, w),
            Rhs::Quad(a, b, c) => {
                let x = self.dot(a, w);
                let y = if x == 0 { 0 } else { mul(x, self.dot(b, w)) };
                add(y, self.dot(c, w))
            }
            Rhs::Inv(k, l) => {
                let x = self.dot(l, w);
                if x == 0 {
                    0
                } else {
                    mul(*k, inv(x))
                }
            }
            Rhs::Bit(k, l) => (self.dot(l, w) >> k) & 1,
            Rhs::Hint(h) => self.hint(h, w),
        }
    }
    /// Computes the witness for the given main inputs (flat, in declaration order) with the prover deviating
    /// at `over` (signal -> value). Returns whether every constraint holds.
    pub fn run(&self, input: &[F], over: &[(u32, F)], w: &mut Vec<F>) -> bool {
        w.clear();
        w.resize(self.n_signals, 0);
        w[0] = 1;
        let mut k = 0;
        for (_, d, base) in &self.inputs {
            for j in 0..size(d) {
                w[*base as usize + j] = input[k];
                k += 1;
            }
        }
        assert_eq!(k, input.len());
        let mut ok = true;
        for op in &self.ops {
            match op.kind {
                OpKind::Check => {
                    if self.value(&op.rhs, w) != 0 {
                        ok = false;
                    }
                }
                _ => {
                    let v = self.value(&op.rhs, w);
                    let mut v2 = v;
                    if !over.is_empty() {
                        if let Some(o) = over.iter().find(|o| o.0 == op.sig) {
                            v2 = o.1;
                        }
                    }
                    w[op.sig as usize] = v2;
                    if op.kind == OpKind::Constrained && v != v2 {
                        ok = false;
                    }
                }
            }
        }
        ok
    }
    pub fn output(&self, name: &str, w: &[F]) -> Option<Vec<F>> {
        let (_, d, b) = self.outputs.iter().find(|o| o.0 == name)?;
        Some(w[*b as usize..*b as usize + size(d)].to_vec())
    }
    /// signals assigned by `<==` (for tampering)
    pub fn constrained_signals(&self) -> Vec<u32> {
        self.ops.iter().filter(|o| o.kind == OpKind::Constrained).map(|o| o.sig).collect()
    }
}
