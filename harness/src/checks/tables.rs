//! C06, C07, C08, C11, C15: the exported tables.
use super::circuits::*;
use super::text::{lists_json, random_lists};
use crate::compile::*;
use crate::gen::*;
use crate::model::*;
use crate::report::Ctx;
use crate::util::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

type Pairs = BTreeSet<(u16, u32)>;

/// Explores the product of a table and a reference automaton. `Err` carries a shortest string that only one accepts.
pub fn product(t: &Table, rows: &[[u16; 256]], acc: &[bool]) -> Result<Pairs, (Vec<u8>, bool)> {
    let mut seen: HashMap<(u16, u32), Option<((u16, u32), u8)>> = HashMap::from([((0, t.start as u32), None)]);
    let mut q = VecDeque::from([(0u16, t.start as u32)]);
    while let Some((s, x)) = q.pop_front() {
        let ra = s != NONE && acc[s as usize];
        let ta = x != NO && x as usize == t.accept;
        if ra != ta {
            let mut w = vec![];
            let mut c = (s, x);
            while let Some(&Some((p, b))) = seen.get(&c) {
                w.push(b);
                c = p;
            }
            w.reverse();
            return Err((w, ta));
        }
        for b in 0..256usize {
            let s2 = if s == NONE { NONE } else { rows[s as usize][b] };
            let x2 = if x == NO { NO } else { t.rows[x as usize][b] };
            if s2 == NONE && x2 == NO {
                continue;
            }
            if !seen.contains_key(&(s2, x2)) {
                seen.insert((s2, x2), Some(((s, x), b as u8)));
                q.push_back((s2, x2));
            }
        }
    }
    Ok(seen.into_keys().filter(|p| p.0 != NONE && p.1 != NO).collect())
}

pub fn diff_text(d: &(Vec<u8>, bool)) -> String {
    format!("\"{}\" is {} by the table", show(&d.0), if d.1 { "wrongly accepted" } else { "not accepted" })
}

/// Raw texts beyond what the circuits' generator makes.
fn raw_variant(rng: &mut Rng) -> (String, String) {
    if rng.below(50) == 0 {
        let g = format!("<{}", giant(rng));
        if PDfa::build(&g).is_ok_and(|d| d.acc.iter().filter(|&&a| a).count() == 1) {
            return (g.clone(), g);
        }
    }
    loop {
        let c = definition(rng, Opts { begin: 0, end: 0, max_parts: 1, raw: true, any: false });
        let p = c.def.parts[0].1.clone();
        let (pat, text) = match rng.below(12) {
            0 => (p.clone(), format!("{p}$")),
            1 => (p.clone(), format!("({p})$")),
            2 if !p.contains('|') => (p.clone(), format!("^{p}")),
            3 => (format!("(?i:{p})"), format!("(?i:{p})")),
            4 => (format!("(?s:{p})"), format!("(?s:{p})")),
            5 => (format!("({p})"), format!("({p})")),
            6 => {
                let q = definition(rng, Opts { begin: 0, end: 0, max_parts: 1, raw: true, any: false }).def.parts[0].1.clone();
                (format!("{p}|{q}"), format!("{p}|{q}"))
            }
            7 => {
                let cls = rng.pick(&["\\p{Greek}", "\\p{Lu}", "[[:punct:]]", "[\\x00-\\x1f]", "[\\x01-\\x7f]", "[^\\x00-\\x7f]", "[\\u{1F600}-\\u{1F64F}]", "\\x00", "[\\x00a]", "[ -~]"]);
                (format!("{p}{cls}"), format!("{p}{cls}"))
            }
            8 => {
                // assertions that hold where they stand, or decide between neighbours
                let (a, b) = *rng.pick(&[
                    ("x(?:P)", "(?-u:\\b)x(?:P)"),
                    ("x;(?:P)", "x(?-u:\\b);(?:P)"),
                    ("xy(?:P)", "x(?-u:\\B)y(?:P)"),
                    ("(?:P)\\n", "(?:P)\\n(?m:^)"),
                    ("(?:P)\\n", "(?:P)(?m:$)\\n"),
                    ("(?:P)-x", "(?:P)-(?-u:\\b)x(?-u:\\b)"),
                    ("(?:P)(?:[a;][b-]|zz)", "(?:P)(?:[a;][b-]|z(?-u:\\B)z)"),
                    ("(?:P)(?:a-|;b|zz)", "(?:P)(?:[a;](?-u:\\b)[b-]|zz)"),
                    ("(?:P)(?:ab|;-)z", "(?:P)[a;](?-u:\\B)[b-]z"),
                    ("(?:P)", "\\A(?:P)\\z"),
                ]);
                (a.replace('P', &p), b.replace('P', &p))
            }
            _ => (p.clone(), p.clone()),
        };
        match PDfa::build(&pat) {
            Ok(d) if d.acc.iter().filter(|&&a| a).count() == 1 && d.d.len() < 400 && !(d.acc[0] && d.d.len() == 1) => return (pat, text),
            _ => {}
        }
    }
}

pub fn c06(ctx: &Ctx) -> i32 {
    ctx.par("raw", n_cases(ctx), |k, rng| {
        let (pat, text) = raw_variant(rng);
        let p = PDfa::build(&pat).unwrap();
        ctx.eval(1);
        let t = match raw_table(&text).ok().and_then(|t| Table::parse(&t)) {
            Ok(t) => t,
            Err(e) => {
                ctx.violation(format!("{text:?} gives no table: {e}"), json!({"case": k, "raw": text, "error": e}));
                return;
            }
        };
        match product(&t, &p.d, &p.acc) {
            Ok(pairs) => {
                ctx.count("product_states", pairs.len() as u64);
                ctx.count("transitions_compared", 256 * pairs.len() as u64);
                ctx.distinct(hash(text.as_bytes()));
            }
            Err(d) => {
                ctx.violation(format!("{text:?}: {}", diff_text(&d)), json!({"case": k, "raw": text, "bytes": d.0, "accepted_by_table": d.1}));
                return;
            }
        }
        // strings, against a search engine
        let Ok(re) = regex::bytes::Regex::new(&format!(r"\A(?:{pat})\z")) else { return };
        let run = |w: &[u8]| {
            let mut s = t.start as u32;
            for &b in w {
                if s == NO {
                    return false;
                }
                s = t.rows[s as usize][b as usize];
            }
            s != NO && s as usize == t.accept
        };
        let mut yes = 0;
        for _ in 0..60 {
            let mut w = vec![];
            let mut s = 0u16;
            for _ in 0..200 {
                if p.acc[s as usize] && rng.chance(40) {
                    break;
                }
                let ch: Vec<usize> = (0..256).filter(|&b| p.d[s as usize][b] != NONE).collect();
                if ch.is_empty() {
                    break;
                }
                let b = *rng.pick(&ch);
                w.push(b as u8);
                s = p.d[s as usize][b];
            }
            match rng.below(4) {
                0 if !w.is_empty() => {
                    let i = rng.below(w.len());
                    w[i] = rng.below(256) as u8;
                }
                1 => w.push(rng.below(256) as u8),
                _ => {}
            }
            let want = re.is_match(&w);
            yes += want as u64;
            if run(&w) != want {
                ctx.violation(
                    format!("{text:?}: \"{}\" is {} by the table", show(&w), if want { "not accepted" } else { "wrongly accepted" }),
                    json!({"case": k, "raw": text, "bytes": w}),
                );
                return;
            }
        }
        ctx.eval(60);
        ctx.count("matching_strings", yes);
        if k < 40 {
            ctx.sample(json!({"raw": text}));
        }
    });
    ctx.finish(
        "random raw regexes with one accepting state (all byte values, alternation, wide and narrow ranges, flags, redundant anchors); the exported table is explored together with an independently built automaton over all 256 bytes and run on generated strings against a search engine; non-trivial: a new regex whose product was explored",
        500,
        &["reference automata and searches come from regex-automata 0.4.7 / regex 1.10.6 through their programmatic interface"],
    )
}

fn table_of(def: &Def, gs: bool) -> Result<(Table, Vec<SubTable>, Compiled), String> {
    let c = decomposed(&def.json_string(), "T", Some(gs), true).ok()?;
    let t = Table::parse(&c.allstr)?;
    let s = c.substrs.iter().map(|s| SubTable::parse(s)).collect::<Result<Vec<_>, _>>()?;
    Ok((t, s, c))
}

/// The pieces of a part at the top level of its concatenation.
fn concat_cuts(p: &str) -> Vec<usize> {
    use regex_syntax::ast::{parse::Parser, Ast};
    match Parser::new().parse(p) {
        Ok(Ast::Concat(ref c)) => c.asts[1..].iter().map(|a| a.span().start.offset).collect(),
        _ => vec![],
    }
}
fn has_alternation(p: &str) -> bool {
    matches!(regex_syntax::ast::parse::Parser::new().parse(p), Ok(regex_syntax::ast::Ast::Alternation(_)))
}

pub fn c07(ctx: &Ctx) -> i32 {
    ctx.par("split", n_cases(ctx), |k, rng| {
        let c = definition(rng, Opts { begin: 25, end: 10, max_parts: 6, raw: false, any: false });
        let d = c.def.json();
        let check = |def: &Def, m: &Model, what: &str| -> bool {
            ctx.eval(1);
            ctx.count(match what {
                "as generated" => "definitions",
                "visibility changed" => "visibility_changes",
                "split" => "splits",
                _ => "merges",
            }, 1);
            let t = match table_of(def, what.len() % 2 == 0) {
                Ok(t) => t.0,
                Err(e) => {
                    ctx.violation(format!("{what}: no table: {e} [{}]", def.json()), json!({"case": k, "definition": def.json(), "original": d, "error": e}));
                    return false;
                }
            };
            match product(&t, &m.t, &m.acc) {
                Ok(p) => {
                    ctx.count("product_states", p.len() as u64);
                    ctx.distinct(hash(def.json_string().as_bytes()));
                    true
                }
                Err(x) => {
                    ctx.violation(
                        format!("{what}: {} [{}]", diff_text(&x), def.json()),
                        json!({"case": k, "definition": def.json(), "original": d, "bytes": x.0, "accepted_by_table": x.1}),
                    );
                    false
                }
            }
        };
        if !check(&c.def, &c.model, "as generated") {
            return;
        }
        for _ in 0..2 {
            let mut v = c.def.clone();
            for p in &mut v.parts {
                if rng.chance(50) {
                    p.0 = !p.0;
                }
            }
            if !check(&v, &c.model, "visibility changed") {
                return;
            }
        }
        // splits keep the language: the original's model is still the reference
        for _ in 0..2 {
            let i = rng.below(c.def.parts.len());
            let cuts = concat_cuts(&c.def.parts[i].1);
            if cuts.is_empty() {
                continue;
            }
            let at = *rng.pick(&cuts);
            let mut v = c.def.clone();
            let (a, b) = (v.parts[i].1[..at].to_string(), v.parts[i].1[at..].to_string());
            v.parts[i].1 = a;
            v.parts.insert(i + 1, (rng.chance(50), b));
            if Model::build(&v).is_ok() && !check(&v, &c.model, "split") {
                return;
            }
        }
        for _ in 0..2 {
            if c.def.parts.len() < 2 {
                break;
            }
            let i = rng.below(c.def.parts.len() - 1);
            let mut v = c.def.clone();
            let b = v.parts.remove(i + 1).1;
            let a = v.parts[i].1.clone();
            if has_alternation(&a) || has_alternation(&b) || v.begin != Begin::No && i == 0 {
                continue;
            }
            v.parts[i].1 = a + &b;
            if Model::build(&v).is_ok() && !check(&v, &c.model, "merged") {
                return;
            }
        }
        if k < 40 {
            ctx.sample(json!({"definition": d}));
        }
    });
    ctx.finish(
        "random supported decomposed definitions, then the same with visibility flags flipped, a part split at a boundary of its syntax tree, and neighbours merged; each table explored together with the one reference automaton; non-trivial: a new definition whose product was explored",
        500,
        &["part automata come from regex-automata 0.4.7 through its programmatic interface"],
    )
}

/// The structure of an exported table.
fn well_formed(t: &Table, text: &str, anchored: Option<bool>) -> Result<(), String> {
    let head: Vec<&str> = text.lines().take(3).collect();
    if head[0] != "0" || t.start != 0 {
        return Err(format!("start state {}", head[0]));
    }
    let n = t.rows.len();
    if n != t.max + 1 {
        return Err(format!("{n} states although the largest id is said to be {}", t.max));
    }
    if t.accept > t.max {
        return Err(format!("accepting state {} does not exist", t.accept));
    }
    let mut set = BTreeSet::new();
    for e in &t.edges {
        if e.2 > 255 {
            return Err(format!("byte {}", e.2));
        }
        if e.0 > t.max || e.1 > t.max {
            return Err(format!("transition {e:?} leaves the states"));
        }
        if !set.insert((e.0, e.2)) {
            return Err(format!("state {} has two transitions on byte {}", e.0, e.2));
        }
        if e.2 == 255 && (e.0 != 0 || anchored == Some(false)) {
            return Err(format!("state {} has a transition on 255", e.0));
        }
    }
    let fwd = reach(n, 0, t.edges.iter().map(|e| (e.0, e.1)));
    if let Some(s) = fwd.iter().position(|&r| !r) {
        return Err(format!("state {s} cannot be reached"));
    }
    let back = reach(n, t.accept, t.edges.iter().map(|e| (e.1, e.0)));
    if let Some(s) = back.iter().position(|&r| !r) {
        return Err(format!("state {s} cannot reach the accepting state"));
    }
    Ok(())
}
fn reach(n: usize, from: usize, e: impl Iterator<Item = (usize, usize)>) -> Vec<bool> {
    let mut adj = vec![vec![]; n];
    for (a, b) in e {
        adj[a].push(b);
    }
    let mut r = vec![false; n];
    let mut q = vec![from];
    r[from] = true;
    while let Some(s) = q.pop() {
        for &x in &adj[s] {
            if !r[x] {
                r[x] = true;
                q.push(x);
            }
        }
    }
    r
}

pub fn c08(ctx: &Ctx) -> i32 {
    ctx.par("shape", n_cases(ctx), |k, rng| {
        let raw_route = k % 3 == 2;
        let mut amb = false;
        let (text, d, anchored) = if raw_route {
            let (_, r) = raw_variant(rng);
            let t = match raw_table(&r).ok() {
                Ok(t) => t,
                Err(_) => {
                    ctx.count("not_compiled", 1);
                    return;
                }
            };
            (t, json!({"raw": r}), Some(false))
        } else {
            let big = k % 7 == 0;
            let c = definition(rng, Opts { begin: 30, end: 15, max_parts: if big { 14 } else { 5 }, raw: false, any: true });
            let t = match decomposed(&c.def.json_string(), "T", Some(k % 2 == 0), true).ok() {
                Ok(t) => t.allstr,
                Err(_) => {
                    ctx.count("not_compiled", 1);
                    return;
                }
            };
            amb = c.model.ambiguous;
            (t, c.def.json(), Some(c.def.anchored()))
        };
        ctx.eval(1);
        let r = Table::parse(&text).and_then(|t| {
            ctx.count("states", t.rows.len() as u64);
            ctx.count("transitions", t.edges.len() as u64);
            if amb {
                // states that only overridden transitions led to may remain
                ctx.count("ambiguous_determinism_only", 1);
                return Ok(());
            }
            well_formed(&t, &text, anchored)
        });
        match r {
            Ok(()) => ctx.distinct(hash(text.as_bytes())),
            Err(e) => ctx.violation(format!("{e} [{d}]"), json!({"case": k, "definition": d, "error": e, "table": text.chars().take(3000).collect::<String>()})),
        }
        ctx.count(if raw_route { "raw_tables" } else { "decomposed_tables" }, 1);
        if k < 40 {
            ctx.sample(json!({"definition": d}));
        }
    });
    ctx.finish(
        "tables of random supported definitions (raw and decomposed, up to 28 parts, anchored or not) checked for every structural clause; non-trivial: a new table",
        500,
        &["definitions are those the reference model calls supported"],
    )
}

/// The scan as a verifier of the tables would run it.
pub struct TScan {
    pub hit: bool,
    pub out: bool,
    /// per position: (from, to, revealed if accepted)
    pub steps: Vec<Option<(usize, usize, bool)>>,
}
pub fn table_scan(t: &Table, msg: &[u8], end: bool) -> TScan {
    let content = msg.len() - msg.iter().rev().take_while(|&&b| b == 0).count();
    let mut cur = t.start;
    let mut run = 0usize;
    let mut tr: Vec<Option<(usize, usize, usize)>> = vec![];
    let mut last: BTreeMap<usize, usize> = BTreeMap::new();
    for i in 0..=msg.len() {
        let b = if i == 0 { 255 } else { msg[i - 1] as usize };
        let step = |s: usize| if b == 0 { NO } else { t.rows[s][b] };
        let mut from = cur;
        let mut nx = if cur != t.start { step(cur) } else { NO };
        if nx == NO {
            from = t.start;
            nx = step(t.start);
            if nx != NO {
                run += 1;
            }
        }
        if nx == NO {
            cur = t.start;
            tr.push(None);
        } else {
            cur = nx as usize;
            tr.push(Some((from, cur, run)));
            if cur == t.accept && (!end || i == content) {
                last.insert(run, i);
            }
        }
    }
    let hit = !last.is_empty();
    let out = hit;
    let steps = (1..=msg.len()).map(|i| tr[i].map(|(a, b, r)| (a, b, last.get(&r).map_or(false, |&l| i <= l)))).collect();
    TScan { hit, out, steps }
}

fn compare(t: &Table, lists: &[BTreeSet<(usize, usize)>], msg: &[u8], e: &Eval, end: bool) -> Result<bool, String> {
    let s = table_scan(t, msg, end);
    if !e.ok {
        return Err("no satisfying witness".into());
    }
    if e.out != s.out as u64 {
        return Err(format!("the circuit's out = {} but the table's scan gives {}", e.out, s.out as u8));
    }
    if e.reveals.len() != lists.len() {
        return Err(format!("{} reveal outputs for {} lists", e.reveals.len(), lists.len()));
    }
    let mut any = false;
    for (i, l) in lists.iter().enumerate() {
        if e.reveals[i].len() != msg.len() {
            return Err(format!("reveal{i} has length {}", e.reveals[i].len()));
        }
        for (j, st) in s.steps.iter().enumerate() {
            let want = match st {
                Some((a, b, true)) if s.out && l.contains(&(*a, *b)) => msg[j],
                _ => 0,
            };
            any |= want != 0;
            if e.reveals[i][j] != want as u64 {
                return Err(format!("reveal{i}[{j}] = {} but the listed transitions reveal {want} (step {st:?})", e.reveals[i][j]));
            }
        }
    }
    Ok(any || s.hit)
}

pub fn c11(ctx: &Ctx) -> i32 {
    ctx.par("halo2", n_cases(ctx), |k, rng| {
        let c = definition(rng, Opts { begin: 25, end: 15, max_parts: 6, raw: false, any: false });
        let d = c.def.json();
        let bad = |what: String, extra: serde_json::Value| {
            ctx.violation(format!("{what} [{d}]"), json!({"case": k, "definition": d, "what": what, "more": extra}));
        };
        ctx.eval(1);
        let (t, subs, out) = match table_of(&c.def, true) {
            Ok(x) => x,
            Err(e) => return bad(format!("unreadable tables: {e}"), json!(null)),
        };
        if subs.len() != c.def.n_public() {
            return bad(format!("{} substring files for {} public parts", subs.len(), c.def.n_public()), json!(null));
        }
        // begin and end states of each public part
        match product(&t, &c.model.t, &c.model.acc) {
            Ok(pairs) => {
                for (i, s) in subs.iter().enumerate() {
                    let part = c.model.public.iter().position(|p| *p == Some(i)).unwrap();
                    let map = |set: &BTreeSet<usize>| -> BTreeSet<usize> {
                        pairs.iter().filter(|p| set.contains(&(p.0 as usize))).map(|p| p.1 as usize).collect()
                    };
                    let (b, e) = (map(&c.model.begins[part]), map(&c.model.ends[part]));
                    let (gb, ge): (BTreeSet<usize>, BTreeSet<usize>) = (s.starts.iter().copied().collect(), s.ends.iter().copied().collect());
                    ctx.count("boundary_lines", 2);
                    if b != gb {
                        return bad(format!("substr_{i}: starts {gb:?}, expected {b:?}"), json!(null));
                    }
                    if e != ge {
                        return bad(format!("substr_{i}: ends {ge:?}, expected {e:?}"), json!(null));
                    }
                }
            }
            Err(_) => {
                // the language itself is C07's business
                ctx.count("language_differs", 1);
            }
        }
        let lists: Vec<BTreeSet<(usize, usize)>> = subs.iter().map(|s| s.edges.iter().copied().collect()).collect();
        for (i, l) in subs.iter().enumerate() {
            for e in &l.edges {
                if !t.edges.iter().any(|x| (x.0, x.1) == *e) {
                    return bad(format!("substr_{i} lists {e:?}, which is no transition of allstr.txt"), json!(null));
                }
            }
        }
        let mut sim = match Sim::new(&out.circom, "T") {
            Ok(s) => s,
            Err(e) => return bad(format!("the circuit is not valid circom: {e}"), json!(null)),
        };
        let w = Walks::new(&c.model, rng);
        for mut m in messages(&c.model, &w, rng, 30, 25) {
            if !ctx.time_left() && ctx.only_case.is_none() {
                return;
            }
            m.retain(|&b| b != 0);
            let n = round_size(m.len(), rng);
            let e = match sim.eval(&m, n) {
                Ok(e) => e,
                Err(e) => return bad(format!("the circuit cannot be instantiated: {e}"), json!(null)),
            };
            ctx.eval(1);
            m.resize(n, 0);
            match compare(&t, &lists, &m, &e, c.def.end) {
                Ok(nt) => {
                    if nt {
                        ctx.distinct(mix(hash(out.circom.as_bytes()), hash(&m)));
                    }
                    ctx.count(if e.out == 1 { "accepted" } else { "rejected" }, 1);
                }
                Err(what) => {
                    return bad(format!("{what} on \"{}\" (msg_bytes {n})", show(&m)), json!({"message": m, "out": e.out, "reveals": e.reveals}));
                }
            }
        }
        ctx.count("definitions", 1);
        ctx.count("substring_files", subs.len() as u64);
        if k < 40 {
            ctx.sample(json!({"definition": d}));
        }
    });
    ctx.finish(
        "random supported definitions; a scan driven by allstr.txt and the substr files is compared with the executed circuit on messages of nonzero bytes, every listed transition must exist, boundary lines must equal the reference's begin and end states; non-trivial: something matched or was revealed",
        500,
        ASSUME,
    )
}

pub fn c15(ctx: &Ctx) -> i32 {
    ctx.par("rawsub", n_cases(ctx), |k, rng| {
        let c = definition(rng, Opts { begin: 0, end: 20, max_parts: 1, raw: true, any: false });
        let r = c.def.raw();
        let t = match raw_table(&r).ok().and_then(|t| Table::parse(&t)) {
            Ok(t) => t,
            Err(_) => {
                ctx.count("not_compiled", 1);
                return;
            }
        };
        let w = Walks::new(&c.model, rng);
        for round in 0..2 {
            let mut lists = random_lists(&t, rng);
            if lists.is_empty() && round == 0 {
                lists = random_lists(&t, rng);
            }
            let sets: Vec<BTreeSet<(usize, usize)>> = lists.iter().map(|l| l.iter().copied().collect()).collect();
            // repetition and order do not matter
            for l in &mut lists {
                for _ in 0..rng.below(3) {
                    if !l.is_empty() {
                        let p = *rng.pick(l);
                        l.push(p);
                    }
                }
                rng.shuffle(l);
            }
            let j = lists_json(&lists);
            let d = json!({"raw": r, "substrings": j});
            ctx.eval(1);
            let text = match raw(&r, Some(&j), "T", None, false).ok() {
                Ok(o) => o.circom,
                Err(e) => {
                    ctx.violation(format!("does not compile: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                    return;
                }
            };
            let mut sim = match Sim::new(&text, "T") {
                Ok(s) => s,
                Err(e) => {
                    ctx.violation(format!("not a valid circuit: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                    return;
                }
            };
            for m in messages(&c.model, &w, rng, 20, 15) {
                if !ctx.time_left() && ctx.only_case.is_none() {
                    return;
                }
                let n = round_size(m.len(), rng);
                let e = match sim.eval(&m, n) {
                    Ok(e) => e,
                    Err(e) => {
                        ctx.violation(format!("cannot be instantiated: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                        return;
                    }
                };
                ctx.eval(1);
                let mut p = m.clone();
                p.resize(n, 0);
                match compare(&t, &sets, &p, &e, c.def.end) {
                    Ok(nt) => {
                        if nt && !sets.is_empty() {
                            ctx.distinct(mix(hash(text.as_bytes()), hash(&p)));
                        }
                        ctx.count("revealed_cells", e.reveals.iter().flatten().filter(|&&x| x != 0).count() as u64);
                    }
                    Err(what) => {
                        ctx.violation(
                            format!("{what} on \"{}\" (msg_bytes {n}) [{d}]", show(&m)),
                            json!({"case": k, "definition": d, "message": m, "msg_bytes": n, "out": e.out, "reveals": e.reveals}),
                        );
                        return;
                    }
                }
            }
            ctx.count("lists", sets.len() as u64);
            ctx.count("circuits", 1);
            if k < 30 {
                ctx.sample(d);
            }
        }
    });
    ctx.finish(
        "random raw regexes with 0..4 random lists of transitions of their exported table (empty, single, all, shuffled, repeated); every reveal cell compared with the table's scan; non-trivial: a match completes with at least one list",
        500,
        ASSUME,
    )
}
