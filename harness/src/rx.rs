//! Regexes made from a syntax tree, matched by a small backtracking matcher of our own.
//! The rendered text is all the code under test sees; the oracle never parses it.
use crate::util::*;
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug)]
pub enum N {
    Chr(char),
    Set(Vec<(char, char)>, bool),
    Dot,
    Cat(Vec<N>),
    Alt(Vec<N>),
    Rep(Box<N>, usize, Option<usize>, bool),
    Cap(Box<N>),
    NonCap(Box<N>),
    Named(String, Box<N>),
    /// scoped flags: (which of i s m, on, node)
    Flag(char, bool, Box<N>),
    Start,
    End,
    WordB(bool),
    Look { ahead: bool, neg: bool, n: Box<N> },
    Ref(String),
    Atomic(Box<N>),
}
use N::*;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Flags {
    i: bool,
    s: bool,
    m: bool,
}

/// One part: inline flags that last until the end of the part, then the node.
#[derive(Clone, Debug)]
pub struct Part {
    pub flags: Vec<char>,
    pub n: N,
    pub text: String,
    pub public: bool,
}

pub const ALPHA: &[char] = &[
    'a', 'b', 'c', 'A', 'B', '0', '1', '2', ' ', '.', '_', '-', '@', '<', '>', '(', ')', '[', ']', '{', '}', '\\', '|', '^', '$', '*',
    '+', '?', '"', '\'', '/', ',', ':', ';', '=', '#', '&', '~', '\n', '\r', '\t', 'é', 'ß', '日', '末', '😀',
];
const META: &str = r"\.+*?()|[]{}^$#&-~";

pub struct G<'r> {
    pub rng: &'r mut Rng,
    pub pool: Vec<char>,
    pub fancy: bool,
    names: usize,
    open: Vec<String>,
    casei: bool,
    prefix: String,
}
impl<'r> G<'r> {
    pub fn new(rng: &'r mut Rng, fancy: bool, prefix: &str) -> G<'r> {
        let n = rng.range(2, 7);
        let pool: Vec<char> = (0..n).map(|_| *rng.pick(ALPHA)).collect();
        G { rng, pool, fancy, names: 0, open: vec![], casei: false, prefix: prefix.into() }
    }
    fn ch(&mut self) -> char {
        if self.rng.chance(88) {
            *self.rng.pick(&self.pool)
        } else {
            *self.rng.pick(ALPHA)
        }
    }
    fn set(&mut self) -> N {
        let mut v = vec![];
        for _ in 0..self.rng.range(1, 3) {
            if self.rng.chance(25) {
                let (a, b) = *self.rng.pick(&[('a', 'c'), ('A', 'Z'), ('0', '9'), ('!', '/'), ('a', 'z'), ('à', 'ÿ'), ('(', '+'), ('Z', '^')]);
                v.push((a, b));
            } else {
                let c = self.ch();
                v.push((c, c));
            }
        }
        Set(v, self.rng.chance(25))
    }
    fn atom(&mut self, depth: usize) -> N {
        match self.rng.below(if depth == 0 { 7 } else { 14 }) {
            0..=3 => Chr(self.ch()),
            4 | 5 => self.set(),
            6 => {
                if self.rng.chance(60) {
                    Dot
                } else {
                    Chr(self.ch())
                }
            }
            7 | 8 => Cap(Box::new(self.node(depth - 1))),
            9 => NonCap(Box::new(self.node(depth - 1))),
            10 => {
                let name = format!("{}{}", self.prefix, self.names);
                self.names += 1;
                let n = self.node(depth - 1);
                self.open.push(name.clone());
                Named(name, Box::new(n))
            }
            11 => {
                let f = *self.rng.pick(&['i', 's', 'm']);
                let on = self.rng.chance(75);
                let old = self.casei;
                if f == 'i' {
                    self.casei = on;
                }
                let n = self.node(depth - 1);
                self.casei = old;
                Flag(f, on, Box::new(n))
            }
            12 if self.fancy => {
                let n = if self.rng.chance(50) { self.node(0) } else { self.set() };
                if nullable(&n) || has_name(&n) {
                    return Chr(self.ch());
                }
                let ahead = self.rng.chance(60);
                let neg = self.rng.chance(40);
                let n = if ahead { n } else { self.set() };
                // something follows or precedes, so the part can still match
                let l = Look { ahead, neg, n: Box::new(n) };
                let c = self.set();
                if ahead {
                    NonCap(Box::new(Cat(vec![l, c])))
                } else {
                    NonCap(Box::new(Cat(vec![c, l])))
                }
            }
            13 if self.fancy && !self.open.is_empty() && !self.casei && self.rng.chance(60) => {
                let k = self.rng.below(self.open.len());
                Ref(self.open[k].clone())
            }
            13 if self.fancy => Atomic(Box::new(self.node(0))),
            _ => Cap(Box::new(self.node(depth - 1))),
        }
    }
    pub fn node(&mut self, depth: usize) -> N {
        let cat = |g: &mut Self| {
            let n = g.rng.range(1, 3);
            let mut v = vec![];
            for _ in 0..n {
                let a = g.atom(depth);
                let rep = !nullable(&a) && !matches!(a, Look { .. } | Start | End | WordB(_) | Ref(_)) && g.rng.chance(30);
                v.push(if rep {
                    let (lo, hi) = *g.rng.pick(&[(0, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(3)), (0, Some(2)), (2, None)]);
                    Rep(Box::new(a), lo, hi, g.rng.chance(75))
                } else {
                    a
                });
            }
            if v.len() == 1 {
                v.pop().unwrap()
            } else {
                Cat(v)
            }
        };
        let open = self.open.len();
        if depth > 0 && self.rng.chance(25) {
            let n = self.rng.range(2, 3);
            let v = (0..n)
                .map(|_| {
                    let x = cat(self);
                    self.open.truncate(open); // a group of one branch is not set in another
                    x
                })
                .collect();
            return Alt(v);
        }
        cat(self)
    }
    pub fn part(&mut self, first: bool, last: bool) -> Part {
        self.open.clear();
        let mut flags = vec![];
        if self.rng.chance(12) {
            flags.push(*self.rng.pick(&['i', 's', 'm']));
        }
        self.casei = flags.contains(&'i');
        let d = self.rng.range(0, 2);
        let mut n = self.node(d);
        let anchor = self.rng.below(40);
        if anchor == 0 || (first && anchor < 4) {
            n = Cat(vec![Start, NonCap(Box::new(n))]);
        } else if anchor == 4 || (last && anchor < 8) {
            n = Cat(vec![NonCap(Box::new(n)), End]);
        } else if anchor == 9 {
            n = Cat(vec![WordB(self.rng.chance(60)), NonCap(Box::new(n))]);
        } else if anchor == 10 {
            n = Rep(Box::new(NonCap(Box::new(Cat(vec![n, Chr('x')])))), 0, None, true);
        }
        let mut text: String = flags.iter().map(|f| format!("(?{f})")).collect();
        render(&n, &mut text, self.rng, 0);
        Part { flags, n, text, public: self.rng.chance(50) }
    }
}

pub fn nullable(n: &N) -> bool {
    match n {
        Chr(_) | Set(..) | Dot => false,
        Cat(v) => v.iter().all(nullable),
        Alt(v) => v.iter().any(nullable),
        Rep(n, lo, _, _) => *lo == 0 || nullable(n),
        Cap(n) | NonCap(n) | Named(_, n) | Flag(_, _, n) | Atomic(n) => nullable(n),
        Start | End | WordB(_) | Look { .. } => true,
        Ref(_) => true,
    }
}
fn has_name(n: &N) -> bool {
    match n {
        Named(..) => true,
        Cat(v) | Alt(v) => v.iter().any(has_name),
        Rep(n, ..) | Cap(n) | NonCap(n) | Flag(_, _, n) | Atomic(n) | Look { n, .. } => has_name(n),
        _ => false,
    }
}

fn esc(c: char, class: bool, rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => return format!("\\x{{{:X}}}", c as u32),
        1 if (c as u32) < 256 => return format!("\\x{:02x}", c as u32),
        2 if c as u32 <= 0xffff => return format!("\\u{:04X}", c as u32),
        3 if !class && !matches!(c, '^' | '\\' | '\n' | '\r' | '\t') && !META.contains(c) => return format!("[{c}]"),
        4 if !class && matches!(c, '(' | ')' | '.' | '$' | '|' | '?' | '*' | '+' | '{' | '}') => return format!("[{c}]"),
        _ => {}
    }
    match c {
        '\n' if rng.chance(60) => "\\n".into(),
        '\r' if rng.chance(60) => "\\r".into(),
        '\t' if rng.chance(60) => "\\t".into(),
        _ if META.contains(c) => format!("\\{c}"),
        _ => c.to_string(),
    }
}
fn render(n: &N, o: &mut String, rng: &mut Rng, prec: u8) {
    // prec 0: alternation allowed, 1: concatenation allowed, 2: atom
    match n {
        Chr(c) => *o += &esc(*c, false, rng),
        Set(v, neg) => {
            o.push('[');
            if *neg {
                o.push('^');
            }
            for (a, b) in v {
                *o += &esc(*a, true, rng);
                if a != b {
                    o.push('-');
                    *o += &esc(*b, true, rng);
                }
            }
            o.push(']');
        }
        Dot => o.push('.'),
        Cat(v) => {
            if prec > 1 {
                *o += "(?:";
            }
            for x in v {
                render(x, o, rng, 1);
            }
            if prec > 1 {
                o.push(')');
            }
        }
        Alt(v) => {
            if prec > 0 {
                *o += "(?:";
            }
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                render(x, o, rng, 1);
            }
            if prec > 0 {
                o.push(')');
            }
        }
        Rep(n, lo, hi, greedy) => {
            if prec > 1 {
                *o += "(?:";
            }
            render(n, o, rng, 2);
            *o += &match (lo, hi) {
                (0, None) => "*".to_string(),
                (1, None) => "+".to_string(),
                (0, Some(1)) => "?".to_string(),
                (a, None) => format!("{{{a},}}"),
                (a, Some(b)) if a == b => format!("{{{a}}}"),
                (a, Some(b)) => format!("{{{a},{b}}}"),
            };
            if !greedy {
                o.push('?');
            }
            if prec > 1 {
                o.push(')');
            }
        }
        Cap(n) => {
            o.push('(');
            render(n, o, rng, 0);
            o.push(')');
        }
        NonCap(n) => {
            *o += "(?:";
            render(n, o, rng, 0);
            o.push(')');
        }
        Named(s, n) => {
            *o += &if rng.chance(50) { format!("(?P<{s}>") } else { format!("(?<{s}>") };
            render(n, o, rng, 0);
            o.push(')');
        }
        Flag(f, on, n) => {
            *o += &if *on { format!("(?{f}:") } else { format!("(?-{f}:") };
            render(n, o, rng, 0);
            o.push(')');
        }
        Start => o.push('^'),
        End => o.push('$'),
        WordB(t) => *o += if *t { "\\b" } else { "\\B" },
        Look { ahead, neg, n } => {
            *o += match (ahead, neg) {
                (true, false) => "(?=",
                (true, true) => "(?!",
                (false, false) => "(?<=",
                (false, true) => "(?<!",
            };
            render(n, o, rng, 0);
            o.push(')');
        }
        Ref(s) => {
            // in a group of its own so that what follows cannot be read as part of the name
            *o += &format!("(?:\\k<{s}>)");
        }
        Atomic(n) => {
            *o += "(?>";
            render(n, o, rng, 0);
            o.push(')');
        }
    }
}

// ---------------------------------------------------------------- matching

pub struct M<'t> {
    s: &'t str,
    steps: Cell<u64>,
    caps: RefCell<Vec<(String, Option<(usize, usize)>)>>,
}
type K<'a> = &'a mut dyn FnMut(usize) -> bool;
fn fold(c: char) -> char {
    match c {
        'À'..='Þ' if c != '×' => c.to_lowercase().next().unwrap(),
        _ => c.to_ascii_lowercase(),
    }
}
fn in_set(v: &[(char, char)], c: char, i: bool) -> bool {
    let t = |c: char| v.iter().any(|&(a, b)| a <= c && c <= b);
    if !i {
        return t(c);
    }
    let lo = fold(c);
    let up = if lo.is_ascii() { lo.to_ascii_uppercase() } else { lo.to_uppercase().next().unwrap() };
    let up = if lo == 'ß' { 'ẞ' } else { up };
    t(lo) || t(up) || t(c)
}
fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
impl<'t> M<'t> {
    fn budget(&self) -> bool {
        self.steps.set(self.steps.get() + 1);
        self.steps.get() < 200_000
    }
    fn m(&self, n: &N, i: usize, f: Flags, k: K) -> bool {
        if !self.budget() {
            return false;
        }
        let next = || self.s[i..].chars().next();
        match n {
            Chr(c) => match next() {
                Some(d) if d == *c || (f.i && fold(d) == fold(*c)) => k(i + d.len_utf8()),
                _ => false,
            },
            Set(v, neg) => match next() {
                Some(d) if in_set(v, d, f.i) != *neg => k(i + d.len_utf8()),
                _ => false,
            },
            Dot => match next() {
                Some(d) if f.s || d != '\n' => k(i + d.len_utf8()),
                _ => false,
            },
            Cat(v) => self.cat(v, i, f, k),
            Alt(v) => v.iter().any(|x| self.m(x, i, f, k)),
            Rep(n, lo, hi, greedy) => self.rep(n, *lo, *hi, *greedy, 0, i, f, k),
            Cap(n) | NonCap(n) => self.m(n, i, f, k),
            Named(name, n) => {
                let at = |j: Option<(usize, usize)>| {
                    let mut c = self.caps.borrow_mut();
                    match c.iter_mut().find(|x| x.0 == *name) {
                        Some(x) => std::mem::replace(&mut x.1, j),
                        None => {
                            c.push((name.clone(), j));
                            None
                        }
                    }
                };
                self.m(n, i, f, &mut |j| {
                    let old = at(Some((i, j)));
                    if k(j) {
                        return true;
                    }
                    at(old);
                    false
                })
            }
            Flag(c, on, n) => self.m(n, i, set(f, *c, *on), k),
            Start => (i == 0 || (f.m && self.s.as_bytes()[i - 1] == b'\n')) && k(i),
            End => (i == self.s.len() || (f.m && self.s.as_bytes()[i] == b'\n')) && k(i),
            WordB(t) => {
                let a = self.s[..i].chars().next_back().map_or(false, word);
                let b = next().map_or(false, word);
                ((a != b) == *t) && k(i)
            }
            Look { ahead, neg, n } => {
                let hit = if *ahead {
                    self.m(n, i, f, &mut |_| true)
                } else {
                    // one character
                    match self.s[..i].chars().next_back() {
                        Some(c) => self.m(n, i - c.len_utf8(), f, &mut |j| j == i),
                        None => false,
                    }
                };
                hit != *neg && k(i)
            }
            Ref(name) => {
                let c = self.caps.borrow().iter().find(|x| x.0 == *name).and_then(|x| x.1);
                match c {
                    Some((a, b)) => self.s[i..].starts_with(&self.s[a..b]) && k(i + b - a),
                    None => false,
                }
            }
            Atomic(n) => {
                let mut e = None;
                self.m(n, i, f, &mut |j| {
                    e = Some(j);
                    true
                });
                e.map_or(false, |j| k(j))
            }
        }
    }
    fn cat(&self, v: &[N], i: usize, f: Flags, k: K) -> bool {
        match v.split_first() {
            None => k(i),
            Some((h, t)) => self.m(h, i, f, &mut |j| self.cat(t, j, f, k)),
        }
    }
    fn rep(&self, n: &N, lo: usize, hi: Option<usize>, greedy: bool, done: usize, i: usize, f: Flags, k: K) -> bool {
        if !self.budget() {
            return false;
        }
        let more = hi.map_or(true, |h| done < h);
        if done < lo {
            return self.m(n, i, f, &mut |j| self.rep(n, lo, hi, greedy, done + 1, j, f, k));
        }
        if greedy {
            if more && self.m(n, i, f, &mut |j| j > i && self.rep(n, lo, hi, greedy, done + 1, j, f, k)) {
                return true;
            }
            k(i)
        } else {
            if k(i) {
                return true;
            }
            more && self.m(n, i, f, &mut |j| j > i && self.rep(n, lo, hi, greedy, done + 1, j, f, k))
        }
    }
    fn parts(&self, p: &[Part], i: usize, cuts: &RefCell<Vec<usize>>) -> bool {
        let (h, t) = match p.split_first() {
            None => return true,
            Some(x) => x,
        };
        let f = h.flags.iter().fold(Flags::default(), |f, &c| set(f, c, true));
        self.m(&h.n, i, f, &mut |j| {
            cuts.borrow_mut().push(j);
            if self.parts(t, j, cuts) {
                return true;
            }
            cuts.borrow_mut().pop();
            false
        })
    }
}
fn set(mut f: Flags, c: char, on: bool) -> Flags {
    match c {
        'i' => f.i = on,
        's' => f.s = on,
        _ => f.m = on,
    }
    f
}

/// The leftmost match as part boundaries (n + 1 positions), None if there is none; Err when too costly.
pub fn search(parts: &[Part], s: &str) -> Result<Option<Vec<usize>>, ()> {
    let mut total = 0;
    for i in (0..=s.len()).filter(|&i| s.is_char_boundary(i)) {
        let m = M { s, steps: Cell::new(0), caps: Default::default() };
        let cuts = RefCell::new(vec![i]);
        let hit = m.parts(parts, i, &cuts);
        total += m.steps.get();
        if m.steps.get() >= 200_000 || total > 1_000_000 {
            return Err(());
        }
        if hit {
            return Ok(Some(cuts.into_inner()));
        }
    }
    Ok(None)
}

// ---------------------------------------------------------------- inputs

fn sample(n: &N, rng: &mut Rng, f: Flags, o: &mut String, caps: &mut Vec<(String, String)>) {
    match n {
        Chr(c) => {
            if f.i && rng.chance(40) {
                o.push(if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            } else {
                o.push(*c)
            }
        }
        Set(v, neg) => {
            if *neg {
                for _ in 0..20 {
                    let c = *rng.pick(ALPHA);
                    if !in_set(v, c, f.i) {
                        o.push(c);
                        return;
                    }
                }
                return;
            }
            let (a, b) = *rng.pick(v);
            let k = rng.range(a as usize, b as usize) as u32;
            o.push(char::from_u32(k).unwrap_or(a));
        }
        Dot => {
            let c = *rng.pick(ALPHA);
            o.push(if c == '\n' && !f.s { '.' } else { c })
        }
        Cat(v) => v.iter().for_each(|x| sample(x, rng, f, o, caps)),
        Alt(v) => {
            let k = rng.below(v.len());
            sample(&v[k], rng, f, o, caps)
        }
        Rep(n, lo, hi, _) => {
            let k = rng.range(*lo, hi.unwrap_or(lo + 3));
            for _ in 0..k {
                sample(n, rng, f, o, caps)
            }
        }
        Cap(n) | NonCap(n) | Atomic(n) => sample(n, rng, f, o, caps),
        Named(s, n) => {
            let a = o.len();
            sample(n, rng, f, o, caps);
            caps.push((s.clone(), o[a..].to_string()));
        }
        Flag(c, on, n) => sample(n, rng, set(f, *c, *on), o, caps),
        Start | End | WordB(_) | Look { .. } => {}
        Ref(s) => {
            if let Some(x) = caps.iter().rev().find(|x| x.0 == *s) {
                let t = x.1.clone();
                *o += &t;
            }
        }
    }
}
pub fn sample_parts(p: &[Part], rng: &mut Rng) -> String {
    let mut o = String::new();
    for x in p {
        let f = x.flags.iter().fold(Flags::default(), |f, &c| set(f, c, true));
        sample(&x.n, rng, f, &mut o, &mut vec![]);
    }
    o
}
pub fn noise(rng: &mut Rng, pool: &[char], max: usize) -> String {
    let n = rng.below(max + 1);
    (0..n).map(|_| if rng.chance(70) && !pool.is_empty() { *rng.pick(pool) } else { *rng.pick(ALPHA) }).collect()
}
pub fn input(p: &[Part], pool: &[char], rng: &mut Rng) -> String {
    let mut o = noise(rng, pool, 4);
    if rng.chance(30) {
        o.clear();
    }
    for _ in 0..rng.range(1, 2) {
        let mut m = sample_parts(p, rng);
        if rng.chance(25) && !m.is_empty() {
            let mut c: Vec<char> = m.chars().collect();
            let k = rng.below(c.len());
            match rng.below(3) {
                0 => {
                    c.remove(k);
                }
                1 => c[k] = *rng.pick(ALPHA),
                _ => c.truncate(k),
            }
            m = c.into_iter().collect();
        }
        o += &m;
        if rng.chance(50) {
            o += &noise(rng, pool, 4);
        }
    }
    affix(o, rng)
}

/// Now and then something that well-meaning code likes to strip stands at the start or the end.
pub fn affix(s: String, rng: &mut Rng) -> String {
    const ODD: &[&str] = &[
        "\u{feff}", "\u{feff}", " ", "\t", "\n", "\r\n", "\r", "\0", "\u{2028}", "\u{85}", "\u{a0}", "\u{200b}", "\u{3000}", "\"", "'", "\u{301}", "\u{ad}", "\u{1f}", "\u{7f}", "\\",
        "\u{e0001}", "\u{10ffff}", "//", "<", ">", "\u{1a}",
    ];
    match rng.below(10) {
        0 => format!("{}{s}", rng.pick(ODD)),
        1 => format!("{s}{}", rng.pick(ODD)),
        2 if rng.chance(40) => format!("{}{s}{}", rng.pick(ODD).repeat(rng.range(1, 3)), rng.pick(ODD).repeat(rng.range(1, 3))),
        _ => s,
    }
}
