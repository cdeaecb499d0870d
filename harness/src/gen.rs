//! Definitions and messages.
use crate::model::*;
use crate::util::*;

const META: &str = r"\.+*?()|[]{}^$#&-~/";

#[derive(Clone)]
pub struct Pool {
    pub chars: Vec<char>,
    pub classes: Vec<String>,
    /// characters kept out of the classes, used as delimiters
    pub delims: Vec<char>,
    /// the classes share their ranges and single bytes
    pub related: bool,
    /// most parts end in a loop or may be empty
    pub loopy: bool,
}

fn lit(c: char, rng: &mut Rng) -> String {
    match c {
        '\n' => return if rng.chance(80) { "\\n".into() } else { "\n".into() },
        '\r' => return if rng.chance(80) { "\\r".into() } else { "\r".into() },
        '\t' => return "\\t".into(),
        '\x0b' => return "\\v".into(),
        '\x0c' => return "\\f".into(),
        _ => {}
    }
    let cp = c as u32;
    if cp < 0x20 || cp == 0x7f {
        return format!("\\x{:02x}", cp);
    }
    if META.contains(c) {
        if r"\.+*?()|[]{}^$".contains(c) {
            return if rng.chance(90) { format!("\\{c}") } else { format!("\\x{:02X}", cp) };
        }
        return if rng.chance(50) { format!("\\{c}") } else { c.to_string() };
    }
    if rng.chance(6) {
        return if cp < 0x100 && rng.chance(60) { format!("\\x{:02X}", cp) } else { format!("\\u{{{:X}}}", cp) };
    }
    c.to_string()
}
fn in_class(c: char, rng: &mut Rng) -> String {
    match c {
        '\\' | ']' | '[' | '^' | '-' | '&' | '~' => format!("\\{c}"),
        '$' | '(' | ')' | '|' | '.' | '*' | '+' | '?' | '{' | '}' => {
            if rng.chance(70) {
                c.to_string()
            } else {
                format!("\\{c}")
            }
        }
        _ => lit(c, rng),
    }
}

/// ASCII ranges around the compiler's 16-wide range threshold, plus singletons and overlaps.
fn range_class(rng: &mut Rng, avoid: &[char]) -> String {
    let mut s = String::from("[");
    for _ in 0..rng.range(1, 4) {
        let w = *rng.pick(&[1usize, 1, 2, 3, 9, 14, 15, 16, 17, 18, 25, 31, 40]);
        let lo = rng.range(1, 126 - w.min(120));
        let hi = lo + w - 1;
        if w == 1 {
            s += &in_class(lo as u8 as char, rng);
        } else {
            s += &format!("{}-{}", in_class(lo as u8 as char, rng), in_class(hi as u8 as char, rng));
        }
    }
    s.push(']');
    if avoid.is_empty() {
        s
    } else {
        let a: String = avoid.iter().map(|&c| in_class(c, rng)).collect();
        format!("[{s}--[{a}]]")
    }
}

pub fn pool(rng: &mut Rng) -> Pool {
    let sets: [&[char]; 9] = [
        &['a', 'b', 'c'],
        &['a', 'b', 'x', 'y', '0', '1'],
        &['f', 'r', 'o', 'm', ':', '<', '>', '@', '.', ' ', '\r', '\n'],
        &['\\', '"', '\'', ' ', '-', '=', '>', ',', '(', ')', '\t'],
        &['^', '$', '|', '*', '+', '?', '.', '[', ']', '{', '}', '('],
        &['\x01', '\x02', '\x0b', '\x0c', '\x1f', '\x7f', '\n', '\r', ' '],
        &['a', 'é', 'ü', '中', '文', '\u{1F600}', '\u{80}', '\u{7ff}', '\u{800}', '\u{10000}', 'ß'],
        &['A', 'B', 'z', '_', '9', '/', '=', '+', '-', ';', '#', '~', '&'],
        &['x', '=', '-', ' ', '\'', '1'],
    ];
    let mut chars: Vec<char> = vec![];
    for _ in 0..rng.range(1, 2) {
        chars.extend(rng.pick(&sets).iter());
    }
    if rng.chance(25) {
        for _ in 0..4 {
            chars.push(rng.range(1, 127) as u8 as char);
        }
    }
    rng.shuffle(&mut chars);
    chars.dedup();
    chars.truncate(rng.range(3, 9));
    let nd = rng.range(1, 2).min(chars.len() - 1);
    let delims: Vec<char> = chars[..nd].to_vec();
    let mut classes = vec![];
    for _ in 0..rng.range(1, 3) {
        let d: String = delims.iter().map(|&c| in_class(c, rng)).collect();
        let k = rng.below(13);
        classes.push(match k {
            0..=2 => format!("[^{d}]"),
            3..=5 => range_class(rng, &delims),
            6 => range_class(rng, &[]),
            7 => {
                let mut s: String = "[".into();
                for _ in 0..rng.range(1, 5) {
                    let c = *rng.pick(&chars);
                    s += &in_class(c, rng);
                }
                s + "]"
            }
            8 => "[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./@]".to_string(),
            9 => rng.pick(&["[[:alpha:]]", "[0-9a-f]", "[^\\r\\n]", "(?-u:\\w)", "(?-u:\\d)", "[\\x21-\\x7e]"]).to_string(),
            12 => rng.pick(&[".", ".", "(?s:.)", "[^\\n]", "(?i:[a-f])", "(?i:k)"]).to_string(),
            10 => rng.pick(&[".", "[^a]", "[^\\x00]", "[é-ü]", "[\\u{400}-\\u{4ff}]", "[a-zé]", "\\d", "\\s"]).to_string(),
            _ => rng.pick(&["[b^]", "[$a]", "[a()]", "[\\]^x]", "[)(]", "[^^]", "[^$]", "[\\\\/]", "[|]"]).to_string(),
        });
    }
    let related = rng.chance(22);
    if related {
        // classes made of the same wide ranges and single bytes in different combinations
        let ranges: Vec<(u8, u8)> = (0..rng.range(1, 2))
            .map(|_| *rng.pick(&[(b'A', b'Z'), (b'a', b'z'), (b'0', b'Z'), (0x21, 0x40), (b'C', b'S'), (b'#', b'9'), (b'a', b'q'), (1, 0x20)]))
            .collect();
        let singles: Vec<char> = (0..rng.range(2, 5)).map(|_| *rng.pick(&['a', 'b', '-', '_', '5', 'Q', ' ', '=', 'z', '~', '\n'])).collect();
        classes = (0..rng.range(3, 6))
            .map(|_| {
                let mut v = vec![];
                for r in &ranges {
                    if rng.chance(50) {
                        v.push(format!("{}-{}", in_class(r.0 as char, rng), in_class(r.1 as char, rng)));
                    }
                }
                for &c in &singles {
                    if rng.chance(50) {
                        v.push(in_class(c, rng));
                    }
                }
                if v.is_empty() {
                    v.push(in_class(singles[0], rng));
                }
                format!("[{}]", v.concat())
            })
            .collect();
        if rng.chance(50) {
            // a bare range, bare bytes, and the range with some of these bytes
            let r = format!("{}-{}", in_class(ranges[0].0 as char, rng), in_class(ranges[0].1 as char, rng));
            let mut v: Vec<char> = (1u8..=126).filter(|b| !(ranges[0].0 - (ranges[0].0 > 0) as u8..=ranges[0].1 + 1).contains(b)).map(|b| b as char).collect();
            rng.shuffle(&mut v);
            v.truncate(4);
            let c: Vec<String> = v.iter().map(|&c| in_class(c, rng)).collect();
            classes = vec![
                format!("[{r}]"),
                format!("[{}{}]", c[0], c[1]),
                format!("[{r}{}]", c[1]),
                format!("[{r}{}]", c[0]),
                format!("[{}{}{}]", c[0], c[1], c[2]),
                format!("[{r}{}{}]", c[1], c[2]),
                format!("[{}{}]", c[2], c[3]),
            ];
        }
    }
    let loopy = rng.chance(10);
    if loopy {
        // enough bytes for parts that do not overlap
        chars.extend(('a'..='k').filter(|c| !delims.contains(c)));
        chars.sort();
        chars.dedup();
        rng.shuffle(&mut chars);
    }
    Pool { chars, classes, delims, related, loopy }
}

fn word(p: &Pool, rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| lit(*rng.pick(&p.chars), rng)).collect()
}
fn expr(p: &Pool, rng: &mut Rng, depth: usize) -> String {
    let n = rng.range(1, 3);
    let mut s = String::new();
    for _ in 0..n {
        let k = rng.below(20);
        s += &match k {
            0..=7 => {
                let n = rng.range(1, 3);
                word(p, rng, n)
            }
            8..=11 => rng.pick(&p.classes).clone(),
            12..=13 => {
                let c = rng.pick(&p.classes).clone();
                let q = rng.pick(&["+", "*", "?", "{2}", "{1,3}", "{2,}", "+?", "*?"]);
                format!("{c}{q}")
            }
            14 => {
                // an escape before a quantifier now and then
                let c = if rng.chance(25) { lit(*rng.pick(&['+', '*', '?', '.', '$', '^', '|', '(', ')', '[', ']', '{', '}', '\\', '-']), rng) } else { lit(*rng.pick(&p.chars), rng) };
                let q = rng.pick(&["+", "*", "?", "{3}", "{0,2}", "{1,}"]);
                format!("{c}{q}")
            }
            _ if depth > 0 => {
                let open = rng.pick(&["(", "(", "(?:"]).to_string();
                let m = rng.range(1, 3);
                let alts: Vec<String> = (0..m).map(|_| expr(p, rng, depth - 1)).collect();
                let q = rng.pick(&["", "", "", "+", "*", "?", "{2}"]);
                format!("{open}{}){q}", alts.join("|"))
            }
            _ => lit(*rng.pick(&p.chars), rng),
        };
    }
    s
}

/// One part; styles range from plain literals to nested expressions.
pub fn part(p: &Pool, rng: &mut Rng) -> String {
    if p.related && rng.chance(40) {
        let n = rng.range(2, 7);
        return (0..n).map(|_| rng.pick(&p.classes).clone()).collect();
    }
    match if p.loopy && rng.chance(70) { 12 } else { rng.below(13) } {
        12 => {
            // ends within a loop, or may be empty: accepting states that are not the last ones
            let mut v = p.chars.clone();
            rng.shuffle(&mut v);
            let c: Vec<String> = (0..4).map(|i| lit(v[i % v.len()], rng)).collect();
            match rng.below(14) {
                0 | 8 | 9 => format!("{}({}{})*", c[0], c[1], c[2]),
                1 => format!("{}({}{})+", c[0], c[1], c[2]),
                2 => format!("{}({}{}|{}{})*", c[0], c[1], c[2], c[3], c[2]),
                3 => format!("({}{})+", c[0], c[1]),
                4 => format!("{}{}*", c[0], c[1]),
                5 => format!("({}{})*", c[0], c[1]),
                6 => format!("({}{})?", c[0], c[1]),
                7 => format!("{}*", rng.pick(&p.classes)),
                _ => format!("{}*", c[0]),
            }
        }
        0..=3 => {
            let n = rng.range(1, 5);
            word(p, rng, n)
        }
        4..=5 => {
            let c = rng.pick(&p.classes).clone();
            format!("{c}{}", rng.pick(&["+", "*", "+", "{1,4}", "?", ""]))
        }
        6 => {
            let a = lit(*rng.pick(&p.delims), rng);
            let c = rng.pick(&p.classes).clone();
            let b = lit(*rng.pick(&p.delims), rng);
            format!("{a}{c}+{b}")
        }
        7 => {
            let n = rng.range(2, 4);
            let a: Vec<String> = (0..n)
                .map(|_| {
                    let k = rng.range(1, 4);
                    word(p, rng, k)
                })
                .collect();
            format!("({})", a.join("|"))
        }
        8 if rng.chance(25) => {
            let n = rng.range(8, 40);
            word(p, rng, n)
        }
        9 if p.classes.len() >= 3 => {
            let n = rng.range(2, 6);
            (0..n).map(|_| rng.pick(&p.classes).clone()).collect()
        }
        _ => expr(p, rng, 2),
    }
}

/// Parts with many states, many alternatives or many repetitions; ASCII only, or automata become slow to build.
fn big_part(p: &Pool, rng: &mut Rng) -> String {
    let chars: Vec<char> = p.chars.iter().copied().filter(char::is_ascii).collect();
    let classes: Vec<&String> =
        p.classes.iter().filter(|c| c.is_ascii() && c.starts_with('[') && !c.starts_with("[^") && !c.contains("\\u") && !c.contains("[:")).collect();
    if chars.len() < 3 || classes.is_empty() {
        return part(p, rng);
    }
    let w = |n: usize, rng: &mut Rng| -> String { (0..n).map(|_| lit(*rng.pick(&chars), rng)).collect() };
    match rng.below(5) {
        0 => {
            let n = rng.range(40, 150);
            w(n, rng)
        }
        1 => {
            let n = rng.range(6, 30);
            let v: Vec<String> = (0..n)
                .map(|_| {
                    let k = rng.range(2, 5);
                    w(k, rng)
                })
                .collect();
            format!("({})", v.join("|"))
        }
        2 => {
            let n = rng.range(17, 90);
            format!("{}{{{n}}}", rng.pick(&classes))
        }
        3 => {
            // every second byte: many equality checks in one class
            let (lo, step) = (rng.range(0x21, 0x30), rng.range(2, 3));
            let v: String = (lo..0x7f).step_by(step).map(|b| in_class(b as u8 as char, rng)).collect();
            format!("[{v}]{}", rng.pick(&["", "+", "{2}"]))
        }
        _ => {
            let n = rng.range(17, 60);
            (0..n).map(|_| rng.pick(&classes).as_str()).collect()
        }
    }
}

fn begin(p: &Pool, rng: &mut Rng) -> Begin {
    match rng.below(10) {
        0..=4 => Begin::Start,
        k => {
            let x = match k {
                5 => "\\r\\n".to_string(),
                6 => {
                    let n = rng.range(1, 3);
                    word(p, rng, n)
                }
                7 => rng.pick(&["[,;]", "\\(", "[(]", "[\\^x]", "a|b", "(?:a|b)", "(ab|c)", "\\n", " ", "a{2}", "[^a]", "\\^", "ab?", "((x)|y)z"]).to_string(),
                8 => rng.pick(&p.classes).clone(),
                _ if rng.chance(15) => format!("({})?", word(p, rng, 2)),
                _ => expr(p, rng, 1),
            };
            let open = if rng.chance(20) { "(?:" } else { "(" };
            // an alternation inside X stays inside the anchor group: it is itself an alternative
            let text = if rng.chance(70) { format!("{open}{x}|^)") } else { format!("{open}^|{x})") };
            Begin::Alt { x, text }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub begin: u8, // percent
    pub end: u8,
    pub max_parts: usize,
    pub raw: bool,
    /// also definitions in which a byte fits both the current part and the next one
    pub any: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { begin: 25, end: 15, max_parts: 6, raw: false, any: false }
    }
}

pub struct Case {
    pub def: Def,
    pub model: Model,
}

/// Many short parts: delimiters that occur once, with parts between them, so more than ten public ones.
fn comb(rng: &mut Rng, o: Opts) -> Option<Case> {
    let mut d: Vec<char> = ('A'..='Z').chain(['<', '>', ':', ';', ',', '@', '=', '#', '!']).collect();
    rng.shuffle(&mut d);
    let n = rng.range(5, 16);
    let mut parts = vec![];
    let pct = *rng.pick(&[60, 100, 100]);
    for i in 0..n {
        parts.push((rng.chance(20), d[i].to_string()));
        let body = rng.pick(&["[a-z]+", "[0-9]*", "[0-9a-f]{1,3}", "x", "(ab|cd)+", "[a-y]z?", "-?[0-9]", "é+", "\\.?", "(k(lm)*)?"]).to_string();
        parts.push((rng.chance(pct), body));
    }
    parts.push((false, ".".replace('.', &d[n].to_string())));
    let begin = if rng.chance(o.begin as usize) { Begin::Start } else { Begin::No };
    let def = Def { begin, parts, end: rng.chance(o.end as usize) };
    let model = Model::build(&def).ok()?;
    Some(Case { def, model })
}

/// A regex with hundreds of states, some of them more than a thousand, that also has short matches.
pub fn giant(rng: &mut Rng) -> String {
    let n = match rng.below(4) {
        0 => rng.range(1000, 1400),
        1 => rng.range(500, 1000),
        _ => rng.range(200, 500),
    };
    let cls = *rng.pick(&["[0-9a-f]", "[a-z]", "[ab]", "x", "[!-~]", "[0-9]"]);
    match rng.below(4) {
        0 => format!("(?:{cls}{{{n}}}|-)"),
        1 => {
            let m = n / 4;
            format!("(?:{cls}{{{m},{n}}}|-)?;")
        }
        2 => {
            // a dictionary
            let k = rng.range(60, 250);
            let v: Vec<String> = (0..k).map(|_| (0..rng.range(2, 9)).map(|_| char::from(b'a' + rng.below(26) as u8)).collect()).collect();
            format!("(?:{})\\.", v.join("|"))
        }
        _ => {
            // the letter so many places before the end
            let k = rng.range(6, 9);
            format!(":[ab]*a[ab]{{{k}}};")
        }
    }
}
pub fn giant_case(rng: &mut Rng, o: Opts) -> Option<Case> {
    let g = giant(rng);
    let def = if o.raw {
        Def { begin: Begin::No, parts: vec![(false, format!("<{g}"))], end: rng.chance(o.end as usize) }
    } else {
        let begin = if rng.chance(o.begin as usize) { Begin::Start } else { Begin::No };
        Def { begin, parts: vec![(rng.chance(50), "<".into()), (rng.chance(70), g), (rng.chance(30), ">".into())], end: rng.chance(o.end as usize) }
    };
    let model = Model::build(&def).ok()?;
    Some(Case { def, model })
}

/// A supported definition (rejection sampling, part by part).
pub fn definition(rng: &mut Rng, o: Opts) -> Case {
    if o.max_parts > 4 && rng.below(250) == 0 {
        if let Some(c) = giant_case(rng, o) {
            return c;
        }
    }
    if o.max_parts > 4 && !o.raw && rng.below(50) == 0 {
        if let Some(c) = comb(rng, o) {
            return c;
        }
    }
    loop {
        let p = pool(rng);
        let b = if rng.chance(o.begin as usize) { begin(&p, rng) } else { Begin::No };
        let big = o.max_parts > 4 && rng.below(40) == 0;
        let want = if o.raw {
            1
        } else if big {
            rng.range(8, 24)
        } else if rng.chance(8) {
            o.max_parts * 2
        } else {
            rng.range(1, o.max_parts)
        };
        let mut def = Def { begin: b, parts: vec![], end: rng.chance(o.end as usize) };
        let mut pub_pct = *rng.pick(&[30, 50, 50, 80, 100]);
        if o.raw {
            pub_pct = 0;
        }
        let mut best: Option<(Def, Model)> = None;
        let mut tries = 0;
        let any = o.any && rng.chance(35);
        while def.parts.len() < want && tries < (if big { want + 10 } else { want * 6 + 8 }) {
            tries += 1;
            let text = if o.raw {
                raw_text(&p, rng)
            } else if rng.chance(4) && (def.begin == Begin::No || !def.parts.is_empty()) {
                let (a, b) = (part(&p, rng), part(&p, rng));
                format!("{a}|{b}")
            } else if big && rng.chance(50) {
                big_part(&p, rng)
            } else {
                part(&p, rng)
            };
            if rng.chance(4) && def.parts.is_empty() && def.begin == Begin::Start && !o.raw {
                def.parts.push((rng.chance(30), String::new()));
            }
            let n0 = def.parts.len();
            def.parts.push((rng.chance(pub_pct), text));
            match if any { Model::build_any(&def) } else { Model::build(&def) } {
                Ok(m) => best = Some((def.clone(), m)),
                // several accepting states can still be joined by a later part
                Err(e) if e.contains("accepting states") && !e.contains("loop") && def.parts.len() < want && rng.chance(70) => {}
                Err(_) => def.parts.truncate(n0),
            }
        }
        if let Some((def, model)) = best {
            if model.cfg.len() > 1 && model.cfg.len() < if big { 300 } else { 160 } {
                return Case { def, model };
            }
        }
    }
}

fn raw_text(p: &Pool, rng: &mut Rng) -> String {
    let mut s = String::new();
    match rng.below(6) {
        0 => {
            let n = rng.range(2, 4);
            let v: Vec<String> = (0..n)
                .map(|_| {
                    let k = rng.range(1, 4);
                    word(p, rng, k)
                })
                .collect();
            return v.join("|");
        }
        1 => return expr(p, rng, 3),
        _ => {
            for _ in 0..rng.range(1, 4) {
                s += &part(p, rng);
            }
        }
    }
    s
}

// ------------------------------------------------------------------ messages

/// Walks over the model's configurations.
pub struct Walks<'a> {
    pub m: &'a Model,
    parent: Vec<(u16, u8)>, // BFS parent (random tie break)
    targets: Vec<Vec<(u16, Vec<u8>)>>,
}
impl<'a> Walks<'a> {
    pub fn new(m: &'a Model, rng: &mut Rng) -> Walks<'a> {
        let n = m.t.len();
        let mut targets: Vec<Vec<(u16, Vec<u8>)>> = vec![vec![]; n];
        for s in 0..n {
            for b in 1..256usize {
                let x = m.t[s][b];
                if x == NONE {
                    continue;
                }
                match targets[s].iter_mut().find(|t| t.0 == x) {
                    Some(t) => t.1.push(b as u8),
                    None => targets[s].push((x, vec![b as u8])),
                }
            }
        }
        let mut parent = vec![(NONE, 0u8); n];
        let mut q = std::collections::VecDeque::from([0u16]);
        let mut seen = vec![false; n];
        seen[0] = true;
        while let Some(s) = q.pop_front() {
            let mut ts: Vec<usize> = (0..targets[s as usize].len()).collect();
            rng.shuffle(&mut ts);
            for i in ts {
                let (x, bs) = &targets[s as usize][i];
                if !seen[*x as usize] {
                    seen[*x as usize] = true;
                    parent[*x as usize] = (s, *rng.pick(bs));
                    q.push_back(*x);
                }
            }
        }
        Walks { m, parent, targets }
    }
    /// Bytes from the root to `s`; starts with 255 when it uses the start-of-message sentinel.
    pub fn path_to(&self, s: u16) -> Option<Vec<u8>> {
        let mut v = vec![];
        let mut c = s;
        while c != 0 {
            let (p, b) = self.parent[c as usize];
            if p == NONE {
                return None; // only reachable through a zero byte
            }
            v.push(b);
            c = p;
        }
        v.reverse();
        Some(v)
    }
    /// Random continuation from `s` to acceptance (then possibly beyond).
    pub fn suffix_from(&self, s: u16, rng: &mut Rng, wander: usize) -> Vec<u8> {
        let mut v = vec![];
        let mut c = s;
        let mut w = wander;
        loop {
            if self.m.acc[c as usize] && (w == 0 || rng.chance(50)) {
                return v;
            }
            let ts = &self.targets[c as usize];
            if ts.is_empty() || v.len() > 400 {
                return v;
            }
            let pick = if w > 0 {
                w -= 1;
                rng.below(ts.len())
            } else {
                let best = ts.iter().map(|t| self.m.dist[t.0 as usize]).min().unwrap();
                let c: Vec<usize> = (0..ts.len()).filter(|&i| self.m.dist[ts[i].0 as usize] == best).collect();
                *rng.pick(&c)
            };
            let (x, bs) = &ts[pick];
            // boundary bytes of the class more often
            let b = match rng.below(4) {
                0 => bs[0],
                1 => bs[bs.len() - 1],
                _ => *rng.pick(bs),
            };
            v.push(b);
            c = *x;
        }
    }
    pub fn full_match(&self, rng: &mut Rng) -> Vec<u8> {
        let w = rng.below(6);
        self.suffix_from(0, rng, w)
    }
    /// A match that starts without the sentinel, if the definition has one.
    pub fn plain_match(&self, rng: &mut Rng) -> Option<Vec<u8>> {
        for _ in 0..20 {
            let m = self.full_match(rng);
            if m.first() != Some(&255) {
                return Some(m);
            }
        }
        None
    }
    /// A match that is allowed at the very start (sentinel stripped).
    pub fn anchored_match(&self, rng: &mut Rng) -> Option<Vec<u8>> {
        if self.m.t[0][255] == NONE {
            return None;
        }
        let w = rng.below(6);
        Some(self.suffix_from(self.m.t[0][255], rng, w))
    }
    fn strip(v: Vec<u8>) -> Vec<u8> {
        v.into_iter().filter(|&b| b != 255).collect()
    }
    pub fn any_byte(&self, rng: &mut Rng) -> u8 {
        match rng.below(10) {
            0..=4 => {
                // a byte some state accepts
                for _ in 0..4 {
                    let s = rng.below(self.targets.len());
                    if !self.targets[s].is_empty() {
                        let (_, bs) = rng.pick(&self.targets[s]);
                        let b = *rng.pick(bs);
                        if b != 255 {
                            return b;
                        }
                    }
                }
                b'q'
            }
            5..=6 => {
                // just outside a class
                let s = rng.below(self.targets.len());
                if self.targets[s].is_empty() {
                    return 1;
                }
                let (_, bs) = rng.pick(&self.targets[s]);
                let b = *rng.pick(bs);
                let c = if rng.chance(50) { b.wrapping_add(1) } else { b.wrapping_sub(1) };
                if c == 255 {
                    254
                } else {
                    c
                }
            }
            7 => *rng.pick(&[1u8, 127, 128, 191, 192, 193, 244, 245, 253, 254]),
            _ => rng.range(0, 254) as u8,
        }
    }
    /// A byte beside a place where the transitions of `s` change.
    pub fn edge_byte(&self, s: u16, rng: &mut Rng) -> u8 {
        let t = &self.m.t[s as usize];
        let e: Vec<u8> = (1..254usize).filter(|&b| t[b] != t[b + 1]).flat_map(|b| [b as u8, b as u8 + 1]).filter(|&b| b != 255).collect();
        if e.is_empty() {
            self.any_byte(rng)
        } else {
            *rng.pick(&e)
        }
    }
    pub fn message(&self, rng: &mut Rng, max: usize) -> Vec<u8> {
        let mut v: Vec<u8> = vec![];
        let segs = rng.range(1, 4);
        for i in 0..segs {
            match rng.below(12) {
                0..=4 => v.extend(Self::strip(self.full_match(rng))),
                5..=6 => {
                    // an attempt that stops half way
                    let m = Self::strip(self.full_match(rng));
                    let k = rng.below(m.len() + 1);
                    v.extend(&m[..k]);
                }
                7 => {
                    // one byte replaced
                    let mut m = Self::strip(self.full_match(rng));
                    if !m.is_empty() {
                        let k = rng.below(m.len());
                        m[k] = self.any_byte(rng);
                    }
                    v.extend(m);
                }
                8 => {
                    // a byte inserted or removed
                    let mut m = Self::strip(self.full_match(rng));
                    if !m.is_empty() {
                        let k = rng.below(m.len());
                        if rng.chance(50) {
                            m.remove(k);
                        } else {
                            let b = self.any_byte(rng);
                            m.insert(k, b);
                        }
                    }
                    v.extend(m);
                }
                9 => v.push(0),
                _ => {
                    for _ in 0..rng.range(1, if i == 0 { 3 } else { 6 }) {
                        let b = self.any_byte(rng);
                        v.push(b);
                    }
                }
            }
            if v.len() > max {
                break;
            }
        }
        v.truncate(max);
        v
    }
    /// path to a configuration, one byte, then what would complete the match from a target of that configuration
    pub fn probe(&self, s: u16, b: u8, rng: &mut Rng) -> Option<Vec<u8>> {
        let mut v = self.path_to(s)?;
        if v.first() == Some(&255) {
            v.remove(0);
        }
        v.push(b);
        let ts = &self.targets[s as usize];
        let nx = self.m.step(s, b);
        let t = if nx != NONE {
            nx
        } else if ts.is_empty() {
            0
        } else {
            rng.pick(ts).0
        };
        v.extend(self.suffix_from(t, rng, 0).into_iter().filter(|&b| b != 255));
        Some(v)
    }
}
