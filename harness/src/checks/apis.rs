//! A01..A07: the extraction and padding APIs.
use super::circuits::n_cases;
use crate::compile::{decomposed, guard, Out, Sim};
use crate::gen;
use crate::js::{self, Js};
use crate::mail;
use crate::model::*;
use crate::report::{in_call, Ctx};
use crate::rx;
use crate::util::*;
use serde_json::{json, Value};
use zk_regex_apis::extract_substrs as ex;

const JSAPI: &str = "ZK_APIS_WASM";
pub type Parts = Vec<(bool, String)>;
pub type Ranges = Vec<(usize, usize)>;

pub fn config(p: &[(bool, String)]) -> ex::DecomposedRegexConfig {
    ex::DecomposedRegexConfig { parts: p.iter().map(|(b, r)| ex::RegexPartConfig { is_public: *b, regex_def: r.clone() }).collect() }
}
pub fn idxes(s: &str, p: &[(bool, String)], private: bool) -> Out<Ranges> {
    let _c = in_call(&format!("extract {} from {s:?}", show_parts(p)));
    let c = config(p);
    guard(|| ex::extract_substr_idxes(s, &c, private))
}
pub fn strings(s: &str, p: &[(bool, String)], private: bool) -> Out<Vec<String>> {
    let _c = in_call(&format!("extract {} from {s:?}", show_parts(p)));
    let c = config(p);
    guard(|| ex::extract_substr(s, &c, private))
}
fn show_parts(p: &[(bool, String)]) -> Value {
    json!({"parts": p.iter().map(|(b, r)| json!({"is_public": b, "regex_def": r})).collect::<Vec<_>>()})
}

/// The same concatenation with every part under a name of its own.
enum Named {
    Bad(String),
    Re(fancy_regex::Regex),
}
fn named(p: &[(bool, String)]) -> Named {
    let s: String = p.iter().enumerate().map(|(i, (_, r))| format!("(?P<vhq{i}_>{r})")).collect();
    match fancy_regex::Regex::new(&s) {
        Ok(r) => Named::Re(r),
        Err(e) => Named::Bad(e.to_string()),
    }
}
/// Ok(None): no match; Err: the engine gave up.
fn named_search(r: &fancy_regex::Regex, n: usize, s: &str) -> Result<Option<Ranges>, String> {
    match r.captures(s) {
        Err(e) => Err(e.to_string()),
        Ok(None) => Ok(None),
        Ok(Some(c)) => Ok(Some((0..n).map(|i| c.name(&format!("vhq{i}_")).map(|m| (m.start(), m.end())).unwrap_or((usize::MAX, 0))).collect())),
    }
}

/// The ranges that a search without any optimization of the engine gives (None: not possible for this definition).
pub fn plain_search(p: &[(bool, String)], s: &str) -> Option<Option<Ranges>> {
    use regex_automata::nfa::thompson::pikevm::PikeVM;
    let e: String = p.iter().enumerate().map(|(i, (_, r))| format!("(?P<vhq{i}_>{r})")).collect();
    let vm = PikeVM::new(&e).ok()?;
    let mut cache = vm.create_cache();
    let mut caps = vm.create_captures();
    vm.captures(&mut cache, s, &mut caps);
    if !caps.is_match() {
        return Some(None);
    }
    (0..p.len()).map(|i| caps.get_group_by_name(&format!("vhq{i}_")).map(|m| (m.start, m.end))).collect::<Option<Ranges>>().map(Some)
}
/// Known finding: regex-automata 0.4.7 searches for a literal inside some regexes and takes a start that is not the leftmost one.
/// True if that is what separates the native result from the other one, which is right.
pub fn engine_defect(p: &[(bool, String)], s: &str, private: bool, native: &Value, other: &Value) -> bool {
    let Some(Some(u)) = plain_search(p, s) else { return false };
    let Named::Re(re) = named(p) else { return false };
    let Ok(Some(e)) = named_search(&re, p.len(), s) else { return false };
    let shown = |r: &Ranges| -> (Value, Value) {
        let r: Ranges = r.iter().zip(p).filter(|x| private || x.1 .0).map(|x| *x.0).collect();
        (ranges_json(&r), json!(r.iter().map(|&(a, b)| &s[a..b]).collect::<Vec<_>>()))
    };
    let (u, e) = (shown(&u), shown(&e));
    u != e && (*native == e.0 || *native == e.1) && (*other == u.0 || *other == u.1)
}
pub const ENGINE: &str = "the regex engine (regex-automata 0.4.7) takes a literal inside the regex for a start: parts \"(..[_]x)*\", \"\\)//|日\" on \"*2日_x)//\"";

/// The concatenation as it is, for parts with numbered back-references (those and names exclude each other).
fn unnamed(p: &[(bool, String)]) -> Named {
    let s: String = p.iter().map(|(_, r)| format!("({r})")).collect();
    match fancy_regex::Regex::new(&s) {
        Ok(r) => Named::Re(r),
        Err(e) => Named::Bad(e.to_string()),
    }
}

pub fn gen_parts(rng: &mut Rng) -> (Vec<rx::Part>, Parts, Vec<char>, bool) {
    let fancy = rng.chance(40);
    let n = if rng.chance(6) { rng.range(6, 14) } else { rng.range(1, 5) };
    let mut pool = vec![];
    let mut v = vec![];
    for i in 0..n {
        let mut g = rx::G::new(rng, fancy, &format!("p{i}g"));
        if i > 0 && g.rng.chance(60) {
            g.pool = pool.clone();
        }
        pool = g.pool.clone();
        v.push(g.part(i == 0, i + 1 == n));
    }
    let p = v.iter().map(|x| (x.public, x.text.clone())).collect();
    (v, p, pool, fancy)
}

const BACKREF: &str = "a numbered back-reference in a part refers to a group of another part: parts \"x\", \"(a)\\1\" on \"xaa\"";

pub fn a01(ctx: &Ctx) -> i32 {
    if ctx.only_case.is_none() {
        // the part (a)\1 matches "aa" on its own
        ctx.eval(1);
        let p: Parts = vec![(true, "x".into()), (true, r"(a)\1".into())];
        match idxes("xaa", &p, true) {
            Out::Ok(r) if r == [(0, 1), (1, 3)] => {}
            o => ctx.violation(BACKREF.into(), json!({"parts": show_parts(&p), "input": "xaa", "expected": [[0, 1], [1, 3]], "got": format!("{o:?}")})),
        }
    }
    if ctx.only_case.is_none() {
        ctx.eval(1);
        let p: Parts = vec![(false, "(..[_]x)*".into()), (true, r"\)//|日".into())];
        match idxes("*2日_x)//", &p, true) {
            Out::Ok(r) if r == [(1, 7), (7, 10)] => {}
            o => ctx.violation(ENGINE.into(), json!({"parts": show_parts(&p), "input": "*2日_x)//", "expected": [[1, 7], [7, 10]], "got": format!("{o:?}")})),
        }
    }
    ctx.par("split", n_cases(ctx), |k, rng| {
        let (tree, parts, pool, fancy) = gen_parts(rng);
        let d = show_parts(&parts);
        let re = match named(&parts) {
            Named::Re(r) => r,
            Named::Bad(_) => {
                ctx.count("not_accepted_by_the_engine", 1);
                return;
            }
        };
        ctx.count("definitions", 1);
        if fancy {
            ctx.count("definitions_with_lookaround_or_references", 1);
        }
        let groups: usize = parts.iter().map(|p| p.1.matches('(').count()).sum();
        ctx.count("parentheses", groups as u64);
        for _ in 0..12 {
            if !ctx.time_left() && ctx.only_case.is_none() {
                return;
            }
            let mut s = rx::input(&tree, &pool, rng);
            let long = !fancy && rng.chance(1);
            if long {
                s = far(&pool, rng) + &s;
                ctx.count("long_inputs", 1);
            }
            let want = match named_search(&re, parts.len(), &s) {
                Ok(w) => w,
                Err(_) => {
                    ctx.count("engine_gave_up", 1);
                    continue;
                }
            };
            // the tree matcher, which shares nothing with the engine
            match if long { Err(()) } else { rx::search(&tree, &s) } {
                Ok(t) => {
                    let t: Option<Ranges> = t.map(|c| c.windows(2).map(|w| (w[0], w[1])).collect());
                    if t == want {
                        ctx.count("confirmed_by_tree_matcher", 1);
                    } else {
                        // a peculiarity of the engine, not of the code under test
                        ctx.count("tree_matcher_differs_from_engine", 1);
                        if !fancy && plain_search(&parts, &s) == Some(t.clone()) {
                            ctx.count("engine_misses_the_leftmost_match", 1);
                        }
                        if std::env::var("VH_SHOW").is_ok() {
                            eprintln!("differs: {d} on {s:?}: tree {t:?} engine {want:?}");
                        }
                    }
                }
                Err(()) => ctx.count("tree_matcher_gave_up", 1),
            }
            ctx.eval(1);
            let got = idxes(&s, &parts, true);
            let bad = match (&got, &want) {
                (Out::Ok(g), Some(w)) => {
                    ctx.distinct(mix(hash(d.to_string().as_bytes()), hash(s.as_bytes())));
                    ctx.count("ranges", g.len() as u64);
                    if g.len() != parts.len() {
                        Some(format!("{} ranges for {} parts", g.len(), parts.len()))
                    } else if g.windows(2).any(|x| x[0].1 != x[1].0) {
                        Some(format!("the ranges {g:?} are not adjacent"))
                    } else if g[0].0 != w[0].0 {
                        Some(format!("the match starts at {} instead of {}", g[0].0, w[0].0))
                    } else if g != w {
                        Some(format!("ranges {g:?} instead of {w:?}"))
                    } else {
                        None
                    }
                }
                (Out::Err(e), None) if e.contains("is not found") => {
                    ctx.count("no_match", 1);
                    None
                }
                (g, w) => Some(format!("{g:?} instead of {w:?}")),
            };
            let bad = bad.or_else(|| {
                // only the public ones, in order
                let w: Ranges = want.as_ref()?.iter().zip(&parts).filter(|x| x.1 .0).map(|x| *x.0).collect();
                match idxes(&s, &parts, false) {
                    Out::Ok(g) if g == w => None,
                    g => Some(format!("public ranges {g:?} instead of {w:?}")),
                }
            });
            if let (Some(_), Out::Ok(g), Some(w)) = (&bad, &got, &want) {
                if engine_defect(&parts, &s, true, &ranges_json(w), &ranges_json(g)) {
                    ctx.count("reference_misses_the_leftmost_match", 1);
                    continue;
                }
            }
            if let Some(w) = bad {
                ctx.violation(format!("extraction: {w} [{d}] on {s:?}"), json!({"case": k, "definition": d, "input": s, "what": w}));
                return;
            }
        }
        if k < 30 {
            ctx.sample(d);
        }
    });
    ctx.finish(
        "random parts rendered from syntax trees (capturing, non-capturing and named groups, classes and escapes with parentheses, scoped flags, lookaround, named references, atomic groups, top-level alternation) on inputs sampled from the trees; ranges compared with the same concatenation searched under a name per part, which an own backtracking matcher over the trees confirms; non-trivial: a new (definition, input) with a match",
        1000,
        &["fancy-regex 0.13 finds the leftmost-first match (confirmed by the tree matcher on the counted inputs)", "numbered back-references are outside the random workload (known finding)"],
    )
}

pub fn a02(ctx: &Ctx) -> i32 {
    ctx.par("visibility", n_cases(ctx), |k, rng| {
        let (tree, mut parts, pool, _) = gen_parts(rng);
        if parts.iter().any(|p| fancy_regex::Regex::new(&p.1).is_err()) {
            ctx.count("not_accepted_by_the_engine", 1);
            return;
        }
        ctx.count("definitions", 1);
        for _ in 0..6 {
            if !ctx.time_left() && ctx.only_case.is_none() {
                return;
            }
            let s = rx::input(&tree, &pool, rng);
            let mut reference: Option<Result<Ranges, String>> = None;
            for round in 0..5 {
                for p in parts.iter_mut() {
                    p.0 = match round {
                        0 => true,
                        1 => false,
                        _ => rng.chance(50),
                    };
                }
                let d = show_parts(&parts);
                ctx.eval(1);
                let fail = |w: String| {
                    ctx.violation(format!("visibility: {w} [{d}] on {s:?}"), json!({"case": k, "definition": d, "input": s, "what": w}));
                };
                let full = idxes(&s, &parts, true).ok();
                match &reference {
                    None => reference = Some(full.clone()),
                    Some(r) if r.is_ok() != full.is_ok() || (r.is_ok() && *r != full) => {
                        fail(format!("the flags change the ranges of all parts from {r:?} to {full:?}"));
                        return;
                    }
                    _ => {}
                }
                let public = idxes(&s, &parts, false).ok();
                let (full, public) = match (full, public) {
                    (Ok(f), Ok(p)) => (f, p),
                    (Err(_), Err(_)) => {
                        ctx.count("no_match", 1);
                        continue;
                    }
                    (f, p) => {
                        fail(format!("all parts give {f:?}, the public ones {p:?}"));
                        return;
                    }
                };
                if full.len() != parts.len() {
                    fail(format!("{} entries for {} parts", full.len(), parts.len()));
                    return;
                }
                let want: Ranges = full.iter().zip(&parts).filter(|x| x.1 .0).map(|x| *x.0).collect();
                if public != want {
                    fail(format!("the public ranges are {public:?}, at the public positions of the full result are {want:?}"));
                    return;
                }
                // no public string covers a byte of a private part
                for (a, b) in &public {
                    for (j, p) in parts.iter().enumerate() {
                        if !p.0 && full[j].0 < *b && *a < full[j].1 {
                            fail(format!("the public range {a}..{b} covers bytes of private part {j} ({:?})", full[j]));
                            return;
                        }
                    }
                }
                for (private, ranges) in [(false, &public), (true, &full)] {
                    let want: Vec<&str> = ranges.iter().map(|&(a, b)| &s[a..b]).collect();
                    match strings(&s, &parts, private) {
                        Out::Ok(g) if g == want => {}
                        g => {
                            fail(format!("strings {g:?} instead of {want:?} (reveal_private = {private})"));
                            return;
                        }
                    }
                }
                ctx.count("public_entries", public.len() as u64);
                ctx.count("private_entries_withheld", (full.len() - public.len()) as u64);
                ctx.distinct(mix(hash(d.to_string().as_bytes()), hash(s.as_bytes())));
            }
        }
        if k < 30 {
            ctx.sample(show_parts(&parts));
        }
    });
    ctx.finish(
        "random definitions as in A01, each input extracted under five visibility assignments (all public, all private, random) with and without private parts; non-trivial: a new (definition with flags, input) with a match",
        1000,
        &[],
    )
}

// ---------------------------------------------------------------- A03

const TOKENS: &[&str] = &[
    "(", ")", "(?:", "(?P<a>", "(?<b>", "(?=", "(?!", "(?<=", "(?<!", "(?>", "[", "]", "[^", "{", "}", "{2}", "{2,}", "{1,3}", "*", "+", "?", "*?", "++",
    "|", "^", "$", "\\", "\\b", "\\B", "\\d", "\\w", "\\s", "\\p{L}", "\\P{Greek}", "\\x41", "\\u{1F600}", "\\1", "\\2", "\\k<a>", "\\A", "\\z", "\\Z", "\\G",
    "\\K", "(?i)", "(?s)", "(?m)", "(?x)", "(?-u)", "(?U)", "(?#", "#", " ", ".", "a", "b", "é", "日", "😀", "-", "&&", "--", "~~", "[:alpha:]", "\\R", "\\h", "\\H",
    "\\e", "\\Q", "\\E", "(?(1)a|b)", "(?R)", "\\0", "\\c", "\\X", "{", ",", "=", "<", ">", "!", ":", "P", "0", "9", "\r\n", "\0", "\u{feff}", "\u{301}",
];
fn garbage(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => rng.pick(super::robust::INVALID).to_string(),
        1 => rng.pick(super::robust::EMPTY).to_string(),
        2 => {
            let d = rng.range(1, 120);
            let (o, c) = *rng.pick(&[("(", ")"), ("(?:", ")"), ("[", "]"), ("(?=", ")"), ("(a|", ")*")]);
            format!("{}a{}", o.repeat(d), c.repeat(if rng.chance(80) { d } else { d / 2 }))
        }
        3 | 4 => {
            let (t, p, _, _) = gen_parts(rng);
            let _ = t;
            let mut c: Vec<char> = p[0].1.chars().collect();
            for _ in 0..rng.range(0, 3) {
                if c.is_empty() {
                    break;
                }
                let k = rng.below(c.len());
                match rng.below(3) {
                    0 => {
                        c.remove(k);
                    }
                    1 => c.insert(k, *rng.pick(rx::ALPHA)),
                    _ => c[k] = *rng.pick(rx::ALPHA),
                }
            }
            c.into_iter().collect()
        }
        _ => {
            let n = rng.range(0, 8);
            (0..n).map(|_| *rng.pick(TOKENS)).collect()
        }
    }
}
fn any_string(rng: &mut Rng) -> String {
    let s = plain_string(rng);
    rx::affix(s, rng)
}
fn plain_string(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => String::new(),
        1 => "a".repeat(rng.range(1, 3000)),
        2 => {
            let n = rng.below(40);
            (0..n).map(|_| char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect()
        }
        3 => "é日😀\u{301}".repeat(rng.range(1, 20)),
        4 => rx::noise(rng, &[], 400),
        _ => rx::noise(rng, &['a', 'b', 'é', '日', '😀'], 30),
    }
}

pub fn a03(ctx: &Ctx) -> i32 {
    let wasm = std::env::var(JSAPI).is_ok();
    ctx.par("total", n_cases(ctx), |k, rng| {
        let n = *rng.pick(&[0usize, 1, 1, 2, 2, 3, 5]);
        let mut parts: Parts = vec![];
        let mut s = any_string(rng);
        if rng.chance(35) {
            let (tree, p, pool, _) = gen_parts(rng);
            parts = p;
            s = rx::input(&tree, &pool, rng);
            if rng.chance(40) && !parts.is_empty() {
                let i = rng.below(parts.len());
                parts[i].1 = garbage(rng);
            }
        } else {
            for _ in 0..n {
                parts.push((rng.chance(60), garbage(rng)));
            }
        }
        if parts.iter().any(|p| p.1.len() > 2000) {
            return;
        }
        let d = show_parts(&parts);
        let _c = in_call(&format!("{d} on {s:?}"));
        let private = rng.chance(50);
        let first_bad = parts.iter().position(|p| fancy_regex::Regex::new(&p.1).is_err());
        let refs = parts.iter().any(|p| p.1.contains("(?(") || p.1.as_bytes().windows(2).any(|w| w[0] == b'\\' && w[1].is_ascii_digit()));
        ctx.eval(1);
        let got = idxes(&s, &parts, private);
        let fail = |w: String| {
            ctx.violation(
                format!("{w} [{d}] on {:?}", s.chars().take(60).collect::<String>()),
                json!({"case": k, "definition": d, "input": s, "reveal_private": private, "what": w}),
            );
        };
        if let Out::Panic(p) = &got {
            fail(format!("extraction panics: {p}"));
            return;
        }
        if let Some(i) = first_bad {
            let head = format!("Invalid regex in parts, index {i}: '{}' - ", parts[i].1);
            match &got {
                Out::Err(e) if e.starts_with(&head) && e.len() > head.len() => {
                    ctx.count("invalid_part_named", 1);
                    ctx.distinct(hash(parts[i].1.as_bytes()));
                }
                g => {
                    fail(format!("part {i} is invalid but the result is {g:?}"));
                    return;
                }
            }
        } else {
            match if refs { unnamed(&parts) } else { named(&parts) } {
                Named::Bad(_) => match &got {
                    Out::Err(e) if !e.is_empty() && !e.contains("is not found") => ctx.count("parts_clash", 1),
                    g => {
                        fail(format!("the parts cannot be combined but the result is {g:?}"));
                        return;
                    }
                },
                Named::Re(re) => match (if refs { re.find(&s).map(|m| m.map(|_| vec![])).map_err(|e| e.to_string()) } else { named_search(&re, parts.len(), &s) }, &got) {
                    (Err(_), Out::Err(e)) if !e.contains("is not found") => ctx.count("engine_gave_up", 1),
                    (Ok(None), Out::Err(e)) if e.contains("is not found") => {
                        ctx.count("no_match_reported", 1);
                        ctx.distinct(mix(hash(d.to_string().as_bytes()), hash(s.as_bytes())));
                    }
                    (Ok(Some(w)), Out::Ok(g)) => {
                        ctx.count("matches", 1);
                        ctx.distinct(mix(hash(d.to_string().as_bytes()), hash(s.as_bytes())));
                        let mut last = 0;
                        for &(a, b) in g {
                            if a > b || a < last || b > s.len() || !s.is_char_boundary(a) || !s.is_char_boundary(b) {
                                fail(format!("range {a}..{b} is out of order, out of bounds or inside a character"));
                                return;
                            }
                            last = b;
                        }
                        let n = parts.iter().filter(|p| private || p.0).count();
                        let w: Ranges = w.iter().zip(&parts).filter(|x| private || x.1 .0).map(|x| *x.0).collect();
                        if g.len() != n {
                            fail(format!("{} ranges for {n} parts", g.len()));
                            return;
                        }
                        if !refs && *g != w {
                            fail(format!("ranges {g:?} instead of {w:?}"));
                            return;
                        }
                    }
                    (w, g) => {
                        fail(format!("the result is {g:?} but searching gives {w:?}"));
                        return;
                    }
                },
            }
        }
        // the string form
        match (&got, strings(&s, &parts, private)) {
            (Out::Ok(g), Out::Ok(t)) => {
                let w: Vec<&str> = g.iter().map(|&(a, b)| &s[a..b]).collect();
                if t != w {
                    fail(format!("strings {t:?} instead of {w:?}"));
                    return;
                }
            }
            (Out::Err(a), Out::Err(b)) if *a == b => {}
            (_, t) => {
                fail(format!("ranges {got:?} but strings {t:?}"));
                return;
            }
        }
        // bundled extractors never panic either
        if k % 4 == 0 {
            for (n, f, _) in EXTRACTORS {
                ctx.eval(1);
                let t = if rng.chance(50) {
                    let mut t = mail::any_mail(rng).text.into_bytes();
                    let i = rng.below(t.len());
                    t[i] = rng.below(128) as u8;
                    String::from_utf8_lossy(&t).into_owned()
                } else {
                    s.clone()
                };
                match guard(|| f(&t)) {
                    Out::Ok(r) => {
                        if r.iter().any(|&(a, b)| a > b || b > t.len() || !t.is_char_boundary(a) || !t.is_char_boundary(b)) {
                            fail(format!("extractor {n} returns {r:?} for {t:?}"));
                            return;
                        }
                    }
                    Out::Err(_) => {}
                    Out::Panic(p) => {
                        fail(format!("extractor {n} panics on {t:?}: {p}"));
                        return;
                    }
                }
            }
        }
        if wasm && k % 5 == 0 {
            ctx.count("wasm_calls", 1);
            let r = js::call(JSAPI, "extractSubstrIdxes", json!([s, d.to_string(), private]));
            match (&got, &r) {
                (Out::Ok(_), Js::Ok(_)) | (Out::Err(_), Js::Err(_, true)) => {}
                _ => fail(format!("natively {got:?} but in JavaScript {r:?}")),
            }
        }
        if k < 60 {
            ctx.sample(json!({"definition": d, "input": s.chars().take(60).collect::<String>()}));
        }
    });
    ctx.finish(
        "random token soup, deep nesting, known-bad and empty-language regexes, mutated valid parts, 0..5 parts, on arbitrary Unicode inputs (up to 3000 characters), natively and every fifth through wasm; judged by the validity of each part alone and by a search under named groups; the process is supervised, so stack overflow, abort and calls that never return count; non-trivial: new outcome-relevant input",
        1000,
        &["validity of a part is that of fancy-regex 0.13", "ranges of definitions with numbered back-references are not compared (known finding of A01)"],
    )
}

// ---------------------------------------------------------------- A04

pub fn a04(ctx: &Ctx) -> i32 {
    let wasm = std::env::var(JSAPI).is_ok();
    ctx.par("pad", n_cases(ctx), |k, rng| {
        let s = match rng.below(4) {
            0 => any_string(rng),
            1 => "\0a\0".repeat(rng.below(5)),
            2 => mail::any_mail(rng).text,
            _ => rx::noise(rng, &[], 60),
        };
        let size = s.len()
            + match rng.below(6) {
                0 => 0,
                1 => 1,
                2 => rng.below(64),
                3 => 64 - s.len() % 64,
                4 => rng.below(70_000),
                _ => rng.below(600),
            };
        ctx.eval(1);
        let judge = |r: &[u8], how: &str| {
            if r.len() != size || r[..s.len()] != *s.as_bytes() || r[s.len()..].iter().any(|&b| b != 0) {
                ctx.violation(
                    format!("{how}: padding {:?} ({} bytes) to {size} gives {} bytes", s.chars().take(40).collect::<String>(), s.len(), r.len()),
                    json!({"case": k, "input": s, "size": size, "got": r.iter().take(s.len() + 20).collect::<Vec<_>>(), "how": how}),
                );
            }
        };
        match guard(|| Ok::<_, String>(zk_regex_apis::padding::pad_string(&s, size))) {
            Out::Ok(r) => judge(&r, "native"),
            x => ctx.violation(format!("padding {:?} to {size}: {x:?}", s), json!({"case": k, "input": s, "size": size})),
        }
        if !s.is_empty() && size > s.len() {
            ctx.count("with_padding", 1);
        }
        if size == s.len() {
            ctx.count("exact_size", 1);
        }
        if !s.is_ascii() {
            ctx.count("multi_byte", 1);
        }
        ctx.distinct(mix(hash(s.as_bytes()), size as u64));
        if wasm && size < 20_000 {
            match js::call(JSAPI, "padString", json!([s, size])) {
                Js::Ok(Value::Array(v)) => {
                    ctx.count("wasm_calls", 1);
                    let b: Vec<u8> = v.iter().map(|x| x.as_u64().filter(|&x| x < 256).unwrap_or(300) as u8).collect();
                    if v.iter().any(|x| x.as_u64().map_or(true, |x| x > 255)) {
                        ctx.violation("padString returns something other than bytes".into(), json!({"input": s, "size": size, "got": v}));
                    } else {
                        judge(&b, "wasm");
                    }
                }
                x => ctx.violation(format!("padString({s:?}, {size}) gives {x:?}"), json!({"case": k, "input": s, "size": size})),
            }
        }
        if k < 10 {
            ctx.sample(json!({"input": s.chars().take(60).collect::<String>(), "size": size}));
        }
    });
    ctx.finish(
        "random strings (multi-byte, NUL, mail headers, empty) padded to their exact length, one more, block sizes and large sizes, natively and through wasm; non-trivial: new (string, size)",
        1000,
        &["sizes below the byte length are outside the property"],
    )
}

// ---------------------------------------------------------------- A05

type Extractor = fn(&str) -> Result<Ranges, ex::ExtractSubstrssError>;
/// (field of the generated mail or "", native, JavaScript)
pub const EXTRACTORS: &[(&str, Extractor, &str)] = &[
    ("email_addr", ex::extract_email_addr_idxes, "extractEmailAddrIdxes"),
    ("email_domain", ex::extract_email_domain_idxes, "extractEmailDomainIdxes"),
    ("from", ex::extract_from_all_idxes, "extractFromAllIdxes"),
    ("from_addr", ex::extract_from_addr_idxes, "extractFromAddrIdxes"),
    ("to", ex::extract_to_all_idxes, "extractToAllIdxes"),
    ("to_addr", ex::extract_to_addr_idxes, "extractToAddrIdxes"),
    ("subject", ex::extract_subject_all_idxes, "extractSubjectAllIdxes"),
    ("body_hash", ex::extract_body_hash_idxes, "extractBodyHashIdxes"),
    ("timestamp", ex::extract_timestamp_idxes, "extractTimestampIdxes"),
    ("message_id", ex::extract_message_id_idxes, "extractMessageIdIdxes"),
];

fn spelled(p: &[(bool, String)], rng: &mut Rng) -> Value {
    let parts: Vec<Value> = p
        .iter()
        .map(|(b, r)| {
            let mut m = serde_json::Map::new();
            let (x, y) = match rng.below(4) {
                0 => ("is_public", "regex_def"),
                1 => ("isPublic", "regexDef"),
                2 => ("isPublic", "regex_def"),
                _ => ("is_public", "regexDef"),
            };
            if rng.chance(50) {
                m.insert(x.into(), json!(b));
                m.insert(y.into(), json!(r));
            } else {
                m.insert(y.into(), json!(r));
                m.insert(x.into(), json!(b));
            }
            if rng.chance(10) {
                m.insert("comment".into(), json!({"x": [1, null, "é"]}));
            }
            Value::Object(m)
        })
        .collect();
    let mut v = json!({ "parts": parts });
    if rng.chance(10) {
        v["name"] = json!("x");
    }
    v
}
pub fn ranges_json(r: &Ranges) -> Value {
    json!(r.iter().map(|x| vec![x.0, x.1]).collect::<Vec<_>>())
}

/// A long run of a character that does not occur in the definition.
pub fn far(pool: &[char], rng: &mut Rng) -> String {
    let c = ['\n', '#', 'z', 'Q', '~', 'ß', ' '].into_iter().find(|c| !pool.contains(c)).unwrap_or('\u{1}');
    let n = *rng.pick(&[250usize, 4090, 65_530, 65_530, 70_000, 131_070]);
    let n = if rng.chance(4) { 1 << 20 } else { n };
    c.to_string().repeat((n + rng.below(12)) / c.len_utf8())
}

pub fn a05(ctx: &Ctx) -> i32 {
    if ctx.only_case.is_none() {
        let probes: [(&[&str], &str); 2] = [
            (&["(..[_]x)*", r"\)//|日"], "*2日_x)//"),
            (
                &[r"(?:[^\u00E9a](@*.)){1,3}", r"(?:(?i:(@[a!-/])(?:.){2,})@{0,2}?[\u005F]+?x)*", r"\)(/{2,}(?<p2g0>\u65E5😀))+|2日\)", "@*日{0,2}?"],
                "日<@@@+1@@@B\t@@*2日)日日>@[éb@.@a$;末日+@@____x)///日😀///日😀///日😀//日😀@@\u{feff}",
            ),
        ];
        for (p, s) in probes {
            ctx.eval(1);
            let p: Parts = p.iter().map(|r| (true, r.to_string())).collect();
            let n = idxes(s, &p, true);
            let j = js::call(JSAPI, "extractSubstrIdxes", json!([s, show_parts(&p), true]));
            match (&n, &j) {
                (Out::Ok(a), Js::Ok(b)) if ranges_json(a) == *b => {}
                (Out::Ok(a), Js::Ok(b)) if engine_defect(&p, s, true, &ranges_json(a), b) => {
                    ctx.count("engine_defect_natively", 1);
                    ctx.violation(ENGINE.into(), json!({"definition": show_parts(&p), "input": s, "native": ranges_json(a), "javascript": b}));
                }
                _ => ctx.violation(format!("natively {n:?}, in JavaScript {j:?} [{}] on {s:?}", show_parts(&p)), json!({"definition": show_parts(&p), "input": s})),
            }
        }
    }
    ctx.par("js", n_cases(ctx), |k, rng| {
        let (tree, mut parts, pool, fancy) = gen_parts(rng);
        let mut good: Option<(Value, Js)> = None;
        for round in 0..8 {
            if !ctx.time_left() && ctx.only_case.is_none() {
                return;
            }
            let mut s = if rng.chance(85) { rx::input(&tree, &pool, rng) } else { any_string(rng) };
            if !fancy && rng.chance(2) {
                // positions beyond 2^8, 2^16 and (seldom) 2^20
                s = far(&pool, rng) + &s;
                ctx.count("long_inputs", 1);
            }
            let saved = parts.clone();
            if rng.chance(15) {
                let i = rng.below(parts.len());
                parts[i].1 = garbage(rng);
            }
            let private = rng.chance(50);
            let v = spelled(&parts, rng);
            let arg = if rng.chance(50) { json!(v.to_string()) } else { v.clone() };
            let form = if arg.is_string() { "string" } else { "object" };
            ctx.eval(1);
            let fail = |w: String| {
                ctx.violation(
                    format!("{w} [{v} as {form}] on {s:?}, reveal_private = {private}"),
                    json!({"case": k, "definition": v, "form": form, "input": s, "reveal_private": private, "what": w}),
                );
            };
            let n = idxes(&s, &parts, private);
            let args = json!([s, arg, private]);
            let r = js::call(JSAPI, "extractSubstrIdxes", args.clone());
            match (&n, &r) {
                (Out::Ok(a), Js::Ok(b)) if ranges_json(a) == *b => {
                    ctx.count("equal_ranges", 1);
                    ctx.distinct(mix(hash(v.to_string().as_bytes()), hash(s.as_bytes())));
                    if !s.is_ascii() {
                        ctx.count("multi_byte_inputs", 1);
                    }
                }
                (Out::Err(e), Js::Err(t, true)) if t.contains(e.as_str()) => ctx.count("equal_errors", 1),
                // the text around the engine's message may differ, the failure may not
                (Out::Err(_), Js::Err(t, true)) if !t.is_empty() => ctx.count("both_throw", 1),
                (Out::Ok(a), Js::Ok(b)) if engine_defect(&parts, &s, private, &ranges_json(a), b) => {
                    ctx.count("engine_defect_natively", 1);
                    ctx.violation(ENGINE.into(), json!({"case": k, "definition": v, "input": s, "native": ranges_json(a), "javascript": b}));
                    parts = saved;
                    continue;
                }
                _ => {
                    fail(format!("natively {n:?}, in JavaScript {r:?}"));
                    return;
                }
            }
            let t = js::call(JSAPI, "extractSubstr", args.clone());
            match (&strings(&s, &parts, private), &t) {
                (Out::Ok(a), Js::Ok(b)) if json!(a) == *b => {}
                (Out::Err(_), Js::Err(t, true)) if !t.is_empty() => {}
                (a, _) => {
                    fail(format!("natively {a:?}, in JavaScript {t:?}"));
                    return;
                }
            }
            if matches!(r, Js::Ok(_)) && good.is_none() {
                good = Some((args, r));
            }
            // arguments that are no configuration
            if round == 3 {
                let bads = [
                    json!(null), json!(7), json!([]), json!({}), json!(""), json!("{"), json!("{}"), json!("[]"), json!("null"), json!({"parts": 1}),
                    json!({"parts": [1]}), json!({"parts": [{}]}), json!({"parts": [{"is_public": 1, "regex_def": "a"}]}),
                    json!({"parts": [{"is_public": true}]}), json!({"parts": [{"regex_def": "a"}]}), json!({"parts": [{"is_public": true, "regex_def": 3}]}),
                    json!("{\"parts\":[{\"is_public\":true}]}"), json!("{\"parts\":[{\"regexDef\":\"a\"}]}"), json!({"parts": null}), json!({"Parts": []}),
                    json!({"$js": "undefined"}), json!({"$js": "() => 1"}), json!({"$js": "Symbol('x')"}), json!({"$js": "new Date()"}), json!({"$js": "10n"}),
                    json!("{\"parts\":[{\"is_public\":\"true\",\"regex_def\":\"a\"}]}"), json!("{\"parts\":[{\"is_public\":true,\"isPublic\":true,\"regex_def\":\"a\"}]}"),
                ];
                let b = rng.pick(&bads).clone();
                // a string is what the Rust API would read
                for f in ["extractSubstrIdxes", "extractSubstr"] {
                    ctx.eval(1);
                    match js::call(JSAPI, f, json!([s, b, private])) {
                        Js::Err(t, true) if !t.is_empty() => ctx.count("non_configurations_refused", 1),
                        x => {
                            fail(format!("{f} with {b} gives {x:?}"));
                            return;
                        }
                    }
                }
            }
            // field extractors and padding
            if round % 2 == 0 {
                let text = if rng.chance(70) { mail::any_mail(rng).text } else { s.clone() };
                let (n, f, j) = rng.pick(EXTRACTORS);
                ctx.eval(1);
                let a = guard(|| f(&text));
                let b = js::call(JSAPI, j, json!([text]));
                match (&a, &b) {
                    (Out::Ok(a), Js::Ok(b)) if ranges_json(a) == *b => ctx.count("equal_fields", 1),
                    (Out::Err(_), Js::Err(t, true)) if !t.is_empty() => ctx.count("equal_errors", 1),
                    _ => {
                        ctx.violation(format!("{j}: natively {a:?}, in JavaScript {b:?} on {text:?}"), json!({"case": k, "input": text, "extractor": n}));
                        return;
                    }
                }
            } else {
                let size = s.len() + rng.below(70);
                let a = zk_regex_apis::padding::pad_string(&s, size);
                ctx.eval(1);
                let b = js::call(JSAPI, "padString", json!([s, size]));
                if b != Js::Ok(json!(a)) {
                    ctx.violation(format!("padString({s:?}, {size}): natively {a:?}, in JavaScript {b:?}"), json!({"case": k, "input": s, "size": size}));
                    return;
                }
            }
            // an earlier call again, after whatever threw in between
            if let Some((a, r)) = &good {
                if rng.chance(60) {
                    ctx.eval(1);
                    let again = js::call(JSAPI, "extractSubstrIdxes", a.clone());
                    ctx.count("calls_repeated_later", 1);
                    if again != *r {
                        fail(format!("an earlier call with {a} now gives {again:?} instead of {r:?}"));
                        return;
                    }
                }
            }
            parts = saved;
        }
        if k < 20 {
            ctx.sample(show_parts(&parts));
        }
    });
    ctx.finish(
        "random definitions (15 % with an invalid part) given as JSON string or JS object in snake_case, camelCase and mixed spelling, bundled extractors on generated headers, padding, and values that are no configuration; every result compared with the native call on the same values; sequences of throwing and succeeding calls in one wasm instance with earlier calls repeated; non-trivial: new (definition, input) with equal ranges",
        1000,
        &["the wasm build is compiled from the working tree with wasm-bindgen for node"],
    )
}

// ---------------------------------------------------------------- A06

/// (what, extractor, input, expected value)
const FIELD_FINDINGS: &[(&str, &str, &str, &str)] = &[
    (
        "body_hash takes the tag of a later header",
        "body_hash",
        "dkim-signature:v=1; bh=AAA; b=x\r\nx-google-dkim-signature:v=1; bh=BBB; b=y\r\n",
        "AAA",
    ),
    (
        "timestamp takes the tag of a later header",
        "timestamp",
        "dkim-signature:v=1; t=111; b=x\r\nx-google-dkim-signature:v=1; t=222; b=y\r\n",
        "111",
    ),
];

pub fn a06(ctx: &Ctx) -> i32 {
    let wasm = std::env::var(JSAPI).is_ok();
    if ctx.only_case.is_none() {
        for (what, n, s, want) in FIELD_FINDINGS {
            ctx.eval(1);
            let f = EXTRACTORS.iter().find(|e| e.0 == *n).unwrap();
            let got: Vec<&str> = match guard(|| (f.1)(s)) {
                Out::Ok(r) => r.iter().map(|&(a, b)| &s[a..b]).collect(),
                _ => vec!["<error>"],
            };
            if got != [*want] {
                ctx.violation(what.to_string(), json!({"extractor": n, "input": s, "expected": want, "got": got}));
            }
        }
    }
    ctx.par("fields", n_cases(ctx), |k, rng| {
        let m = mail::any_mail(rng);
        let (from, to) = (m.from.clone(), m.to.clone());
        for (n, f, j) in EXTRACTORS {
            let (text, want) = match *n {
                "email_addr" | "email_domain" => {
                    // a mailbox on its own, or in a sentence
                    let (v, a) = if rng.chance(50) { (&from, &m.from_addr) } else { (&to, &m.to_addr) };
                    let lead = *rng.pick(&["", "", "sent by ", "\"", "(", "日本 ", "é\r\n"]);
                    let tail = *rng.pick(&["", "", ", thanks", "\r\n", ">", ")"]);
                    let t = format!("{lead}{v}{tail}");
                    let s = t.rfind(a.as_str()).unwrap();
                    // characters of the local class directly before would belong to the address
                    let r = if *n == "email_addr" { (s, s + a.len()) } else { (s + a.find('@').unwrap() + 1, s + a.len()) };
                    (t, r)
                }
                x => {
                    let (s, l) = m.at[x];
                    (m.text.clone(), (s, s + l))
                }
            };
            ctx.eval(1);
            let a = guard(|| f(&text));
            let ok = matches!(&a, Out::Ok(r) if *r == [want]);
            if !ok {
                ctx.violation(
                    format!("extractor {n} returns {a:?} instead of [{want:?}] ({:?}) for {text:?}", &text[want.0..want.1]),
                    json!({"case": k, "extractor": n, "input": text, "expected": [want.0, want.1]}),
                );
                return;
            }
            ctx.count(&format!("{n}_found"), 1);
            ctx.distinct(mix(hash(n.as_bytes()), hash(text.as_bytes())));
            if wasm && k % 6 == 0 {
                ctx.count("wasm_calls", 1);
                let b = js::call(JSAPI, j, json!([text]));
                if b != Js::Ok(json!([[want.0, want.1]])) {
                    ctx.violation(format!("{j} returns {b:?} instead of [{want:?}] for {text:?}"), json!({"case": k, "extractor": j, "input": text}));
                    return;
                }
            }
        }
        if k < 8 {
            ctx.sample(json!({"header": m.text}));
        }
    });
    ctx.finish(
        "generated canonicalized header blocks with the fields in any order among look-alike headers (x-from, reply-to, resent-to, subject values that contain other field names, unfinished tags), multi-byte values, mailboxes with and without names; every extractor judged against the position at which its value was written; non-trivial: new (extractor, block)",
        1000,
        &["header blocks are canonicalized: lower-case names, no folding, CRLF line ends, one DKIM signature, one mailbox per address field"],
    )
}

// ---------------------------------------------------------------- A07

/// All matches of the whole definition in the content, up to 2: (start, end, by the anchor or not).
fn all_matches(m: &Model, msg: &[u8]) -> Vec<(usize, usize, u16)> {
    let mut v = vec![];
    for s in 0..=msg.len() {
        let mut starts = vec![0u16];
        if s == 0 && m.t[0][255] != NONE {
            starts.push(m.t[0][255]);
        }
        for c0 in starts {
            let mut c = c0;
            if m.acc[c as usize] && (!m.end || s == msg.len()) && !v.contains(&(s, s, c0)) {
                v.push((s, s, c0));
                if v.len() > 1 {
                    return v;
                }
            }
            for e in s..msg.len() {
                c = m.step(c, msg[e]);
                if c == NONE {
                    break;
                }
                if m.acc[c as usize] && (!m.end || e + 1 == msg.len()) && !v.contains(&(s, e + 1, c0)) {
                    v.push((s, e + 1, c0));
                    if v.len() > 1 {
                        return v;
                    }
                }
            }
        }
    }
    v
}

pub fn a07(ctx: &Ctx) -> i32 {
    ctx.par("agree", n_cases(ctx), |k, rng| {
        let c = loop {
            let c = gen::definition(rng, gen::Opts { begin: 25, end: 15, max_parts: 5, raw: false, any: false });
            // the text of a begin-anchor alternative belongs to the first part in extraction, to no part in the circuit
            // an anchor beside a top-level alternation binds to one branch in extraction, to the whole in the circuit
            let alt = |r: &str| matches!(regex_syntax::ast::parse::Parser::new().parse(r), Ok(regex_syntax::ast::Ast::Alternation(_)));
            if (c.def.end && alt(&c.def.parts.last().unwrap().1)) || (c.def.begin != Begin::No && alt(&c.def.parts[0].1)) {
                continue;
            }
            // fancy-regex has no bytes mode
            if c.def.rendered().iter().any(|p| p.1.contains("(?-u")) {
                continue;
            }
            if c.def.n_public() > 0 && !(matches!(c.def.begin, Begin::Alt { .. }) && c.def.parts[0].0) {
                break c;
            }
        };
        let d = c.def.json();
        let parts = c.def.rendered();
        let text = match decomposed(&c.def.json_string(), "T", Some(true), false).ok() {
            Ok(t) => t.circom,
            Err(e) => {
                ctx.eval(1);
                ctx.violation(format!("a supported regex does not compile: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                return;
            }
        };
        let mut sim = match Sim::new(&text, "T") {
            Ok(s) => s,
            Err(e) => {
                ctx.violation(format!("the circuit is not valid circom: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                return;
            }
        };
        ctx.count("definitions", 1);
        let w = gen::Walks::new(&c.model, rng);
        let mut msgs = vec![];
        for i in 0..60 {
            let mut b: Vec<u8> = if i % 2 == 0 {
                let mut b = rx::noise(rng, &[], 6).into_bytes();
                b.extend(w.full_match(rng));
                if !c.def.end && rng.chance(60) {
                    b.extend(rx::noise(rng, &[], 6).into_bytes());
                }
                b
            } else {
                let max = *rng.pick(&[12usize, 32, 64]);
                w.message(rng, max)
            };
            if i % 5 == 1 && !b.is_empty() {
                // one byte becomes one that wildcards and classes treat apart
                let k = rng.below(b.len());
                b[k] = *rng.pick(b"\n\n\n\r\t \x0b\x0c\x1f\x7fZ_0");
            }
            b.retain(|&x| x != 0 && x != 255);
            // keep what is text
            let s: String = String::from_utf8_lossy(&b).chars().filter(|&c| c != '\u{fffd}').collect();
            if s.len() <= 256 {
                msgs.push(s);
            }
        }
        msgs.sort_by_key(|m| m.len());
        for s in msgs {
            if !ctx.time_left() && ctx.only_case.is_none() {
                return;
            }
            let size = *[8usize, 24, 64, 128, 256, 300].iter().find(|&&x| x >= s.len()).unwrap();
            let e = match sim.eval(s.as_bytes(), size) {
                Ok(e) => e,
                Err(e) => {
                    ctx.violation(format!("the circuit cannot be instantiated: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                    return;
                }
            };
            ctx.eval(1);
            let got = idxes(&s, &parts, false);
            let fail = |w: String| {
                ctx.violation(
                    format!("{w} [{d}] on {s:?}"),
                    json!({"case": k, "definition": d, "input": s, "ranges": format!("{got:?}"),
                           "circuit": {"satisfied": e.ok, "out": e.out, "reveals": e.reveals}, "what": w}),
                );
            };
            if e.ok && e.out == 1 {
                ctx.count("circuit_accepts", 1);
                if !matches!(got, Out::Ok(_)) {
                    fail(format!("the circuit accepts but extraction gives {got:?}"));
                    return;
                }
            }
            let all = all_matches(&c.model, s.as_bytes());
            if all.len() != 1 {
                ctx.count("not_a_single_match", 1);
                continue;
            }
            // unobstructed: the scan is idle where the match starts
            let mut padded = s.clone().into_bytes();
            padded.resize(size, 0);
            let sc = c.model.scan(&padded);
            if !sc.out || sc.runs == 0 {
                ctx.count("obstructed", 1);
                continue;
            }
            ctx.count("single_matches", 1);
            if !s.is_ascii() {
                ctx.count("multi_byte_messages", 1);
            }
            let g = match &got {
                Out::Ok(g) => g,
                x => {
                    fail(format!("there is a single match but extraction gives {x:?}"));
                    return;
                }
            };
            if e.out != 1 || !e.ok {
                fail("extraction finds the single match but the circuit rejects it".into());
                return;
            }
            if g.len() != e.reveals.len() {
                fail(format!("{} public ranges but {} reveal outputs", g.len(), e.reveals.len()));
                return;
            }
            for (i, &(a, b)) in g.iter().enumerate() {
                for (j, &x) in e.reveals[i].iter().enumerate() {
                    let want = if j >= a && j < b { padded[j] as u64 } else { 0 };
                    if x != want {
                        fail(format!("range {i} is {a}..{b} but reveal{i}[{j}] = {x}"));
                        return;
                    }
                }
            }
            ctx.distinct(mix(hash(d.to_string().as_bytes()), hash(s.as_bytes())));
        }
        if k < 30 {
            ctx.sample(json!({"definition": d}));
        }
    });
    ctx.finish(
        "random supported definitions with public parts; messages are matches in noise and mutated ones, valid UTF-8 without zero bytes; when exactly one substring matches (counted over all starts and ends) and the scan reaches it, the extraction ranges of the public parts must be the revealed positions; whenever the circuit accepts, extraction must find something; non-trivial: new (definition, message) with a single match",
        300,
        &["the circuit evaluator and the part automata of regex-automata decide which messages have a single match"],
    )
}
