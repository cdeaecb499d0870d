//! C12: malformed and unrepresentable definitions are refused, by every entry point, without touching the outputs.
use super::circuits::n_cases;
use crate::compile::*;
use crate::gen::*;
use crate::js::{self, Js};
use crate::model::*;
use crate::report::{in_call, Ctx};
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::process::Command;
use zk_regex_compiler as zk;

/// What is given to the compiler.
#[derive(Clone, Debug)]
enum Input {
    /// text of the definition file; None: the file does not exist
    Dec(Option<Vec<u8>>),
    /// regex; no substring file, or its text (None: the file does not exist)
    Raw(String, Option<Option<Vec<u8>>>),
}
#[derive(Clone, Debug)]
struct Bad {
    what: &'static str,
    input: Input,
    /// the automaton alone can still be exported
    dfa_ok: bool,
    /// the template name is left out
    no_name: bool,
}

pub const INVALID: &[&str] = &[
    "(", ")", "[", "a{2,1}", "\\", "*", "+a", "?", "(?P<", "\\p{Foo}", "(?=a)", "(?!a)", "\\1", "(a", "a)", "[z-a]", "[a", "(?", "(?<n>a)(?<n>b)",
    "a)(b", "x{99999999999}", "\\q", "[[:foo:]", "(?z)a", "\\x{110000}", "\\xZ", "a|*", "(*)", "{,}(", "\\u{}", "(?P<1>a)", "[\\d-z", "(()", "a)|(b",
    "\\k<a>", "(?>a)", "a++(", "[a-\\d]", "\\", "(?i", "a(?#", "\\pZZ{", "\\x{D800}", "[--", "[a&&", "((a)", "(?u-u:a)(",
];
pub const EMPTY: &[&str] = &["[a&&b]", "[^\\x00-\\x{10FFFF}]", "a[b&&c]", "[0-9--0-9]", "(x[a&&b]|y[c&&d])", "[a&&[^a]]+"];
const MULTI: &[&str] = &["a|ab", "ab?", "(a|bc?)", "x(y(z)?)?", "a{1,3}", "(ab|abc)", "é|éa", "a|a\\n", "(?:ab)?c?d|e", "[0-9]{2,4}"];

/// Parse errors as the regex library itself sees them.
fn valid_regex(p: &str) -> bool {
    regex_syntax::Parser::new().parse(p).is_ok()
}
/// A check that compiling is cheap: the fuzzed definitions must not blow up the compiler.
fn affordable(parts: &[String]) -> bool {
    parts.iter().enumerate().all(|(i, p)| {
        if p.len() > 300 {
            return false;
        }
        // what stands before the end of an anchor group is compiled by itself
        if i == 0 && p.contains('^') {
            for e in (1..p.len()).filter(|&e| p.is_char_boundary(e) && matches!(p.as_bytes()[e - 1], b')' | b'^')) {
                if !affordable_one(&p[..e]) || !affordable_one(&p[e..]) {
                    return false;
                }
            }
        }
        affordable_one(p)
    })
}
fn affordable_one(p: &str) -> bool {
    if !valid_regex(p) {
        return true;
    }
    // the compiler's automata keep the order of alternatives and can be far larger before minimization
    let ordered = regex_automata::dfa::dense::DFA::builder()
        .thompson(regex_automata::nfa::thompson::Config::new().nfa_size_limit(Some(4 << 20)))
        .configure(
            regex_automata::dfa::dense::DFA::config()
                .start_kind(regex_automata::dfa::StartKind::Anchored)
                .dfa_size_limit(Some(200 << 10))
                .determinize_size_limit(Some(400 << 10)),
        )
        .build(&format!("^({p})$"));
    if ordered.is_err_and(|e| e.to_string().contains("limit") || std::error::Error::source(&e).is_some_and(|s| s.to_string().contains("limit"))) {
        return false;
    }
    match PDfa::build(p) {
        Ok(d) => d.d.len() <= 150,
        Err(e) => !(e.contains("too large") || e.contains("size") || e.contains("limit") || e.contains("exceed")),
    }
}
fn minimal_accepts(p: &str) -> usize {
    PDfa::build(p).map(|d| d.acc.iter().filter(|&&a| a).count()).unwrap_or(0)
}

fn dec(parts: &[(bool, String)]) -> Input {
    Input::Dec(Some(
        json!({"parts": parts.iter().map(|(p, r)| json!({"is_public": p, "regex_def": r})).collect::<Vec<_>>()}).to_string().into_bytes(),
    ))
}
fn mutate_bytes(v: &mut Vec<u8>, rng: &mut Rng) {
    for _ in 0..rng.range(1, 3) {
        if v.is_empty() {
            return;
        }
        let i = rng.below(v.len());
        match rng.below(5) {
            0 => v[i] = rng.next() as u8,
            1 => {
                v.remove(i);
            }
            2 => v.insert(i, *rng.pick(b"{}[]\",:\\0ntfalsue()^$|*+?. ")),
            3 => {
                let j = (i + rng.range(1, 12)).min(v.len());
                let s: Vec<u8> = v[i..j].to_vec();
                v.splice(i..i, s);
            }
            _ => v.truncate(i),
        }
    }
}

/// A definition that must be refused.
fn bad(rng: &mut Rng) -> Option<Bad> {
    let raw = rng.chance(35);
    let c = definition(rng, Opts { raw, begin: if raw { 0 } else { 25 }, end: 15, max_parts: 4, any: false });
    let mut parts = c.def.rendered();
    let b = |what, input| Some(Bad { what, input, dfa_ok: false, no_name: false });
    if raw {
        let r = c.def.raw();
        let ok_defs = b"{\"transitions\":[[[0,1]]]}".to_vec();
        return match rng.below(12) {
            0..=3 => {
                let i = INVALID[rng.below(INVALID.len())];
                let t = if rng.chance(50) { format!("{r}{i}") } else { format!("{i}{r}") };
                if valid_regex(&t) {
                    return None;
                }
                b("invalid regex", Input::Raw(t, if rng.chance(30) { Some(Some(ok_defs)) } else { None }))
            }
            4 => b("empty language", Input::Raw(EMPTY[rng.below(EMPTY.len())].to_string(), None)),
            5 | 6 => {
                let t = if rng.chance(50) { MULTI[rng.below(MULTI.len())].to_string() } else { format!("(?:{r})({})", MULTI[rng.below(MULTI.len())]) };
                if minimal_accepts(&t) < 2 || !affordable(&[t.clone()]) {
                    return None;
                }
                b("several accepting states", Input::Raw(t, None))
            }
            7 => b("substring file missing", Input::Raw(r, Some(None))),
            8 | 9 => {
                let t: &[&str] = &[
                    "", "{", "[]", "null", "3", "{\"transitions\":null}", "{\"transitions\":[[0,1]]}", "{\"transitions\":[[[0]]]}", "{\"transitions\":[[[0,1,2]]]}",
                    "{\"transitions\":[[[-1,1]]]}", "{\"transitions\":[[[\"0\",1]]]}", "{\"transitions\":[[[0.5,1]]]}", "{\"transition\":[[[0,1]]]}",
                    "{\"transitions\":{\"0\":[[0,1]]}}", "{\"transitions\":[[[0,1]]", "{\"transitions\":[[[0,18446744073709551616]]]}", "[[[0,1]]",
                    "{}", "{\"transitions\":[[[0,1],null]]}", "{\"transitions\":[[[0,1]]]}}",
                ];
                b("malformed substring file", Input::Raw(r, Some(Some(t[rng.below(t.len())].as_bytes().to_vec()))))
            }
            _ => {
                // a state the exported table does not have
                let n = match raw_table(&r).ok().and_then(|t| Table::parse(&t)) {
                    Ok(t) => t.max + 1,
                    Err(_) => return None,
                };
                let big = *rng.pick(&[n, n, n + 1, n + 7, 1 << 20, usize::MAX]);
                let other = rng.below(n);
                let e = if rng.chance(50) { (big, other) } else { (other, big) };
                let mut l = vec![vec![(0usize, 1usize)], vec![e]];
                if rng.chance(50) {
                    l.reverse();
                }
                b("substring of a state that does not exist", Input::Raw(r, Some(Some(super::text::lists_json(&l).into_bytes()))))
            }
        };
    }
    let n = parts.len();
    match rng.below(16) {
        0..=4 => {
            let i = rng.below(n);
            let bad = INVALID[rng.below(INVALID.len())];
            match rng.below(3) {
                0 => parts[i].1 = bad.to_string(),
                1 => parts[i].1 = format!("{}{bad}", parts[i].1),
                // behind an anchor the part is split first; keep to the part without one
                _ if i == 0 && c.def.begin != Begin::No => return None,
                _ => parts[i].1 = format!("{bad}{}", parts[i].1),
            }
            if valid_regex(&parts[i].1) {
                return None;
            }
            b("invalid regex", dec(&parts))
        }
        5 | 6 => {
            let i = rng.below(n);
            parts[i].1.push('$');
            // an unescaped dollar that ends a part which is not the last one
            let t = &parts[i].1;
            if t[..t.len() - 1].bytes().rev().take_while(|&b| b == b'\\').count() % 2 == 1 || !valid_regex(t) {
                return None;
            }
            if i == n - 1 {
                let d = lit_part(rng);
                parts.push((rng.chance(50), d));
            }
            b("$ before the last part", dec(&parts))
        }
        7 => {
            let i = rng.below(n);
            parts[i].1 = EMPTY[rng.below(EMPTY.len())].to_string();
            b("empty language", dec(&parts))
        }
        8 | 9 => {
            let mut d = c.def.clone();
            let t = MULTI[rng.below(MULTI.len())].to_string();
            let l = d.parts.len() - 1;
            if rng.chance(50) {
                d.parts.push((rng.chance(50), t));
            } else {
                d.parts[l].1 = t;
            }
            match Model::build(&d) {
                Err(e) if e.contains("accepting states") && !e.contains("loop") => {}
                _ => return None,
            }
            // and the language as a whole really needs several
            let whole: String = d.parts.iter().map(|p| format!("(?:{})", p.1)).collect();
            if minimal_accepts(&whole) < 2 {
                return None;
            }
            Some(Bad { what: "several accepting states", input: dec(&d.rendered()), dfa_ok: true, no_name: false })
        }
        10 => b("no parts", Input::Dec(Some(b"{\"parts\":[]}".to_vec()))),
        11 => b("definition file missing", Input::Dec(None)),
        12 => Some(Bad { what: "template name missing", input: dec(&parts), dfa_ok: true, no_name: true }),
        13 => {
            // structurally wrong JSON
            let mut v: Value = c.def.json();
            let i = rng.below(n);
            match rng.below(12) {
                0 => {
                    v.as_object_mut().unwrap().remove("parts");
                }
                1 => {
                    v["parts"][i].as_object_mut().unwrap().remove("is_public");
                }
                2 => {
                    v["parts"][i].as_object_mut().unwrap().remove("regex_def");
                }
                3 => v["parts"] = json!(null),
                4 => v["parts"] = json!({"0": v["parts"][0]}),
                5 => v["parts"] = json!("a"),
                6 => v["parts"][i]["is_public"] = rng.pick(&[json!("true"), json!(1), json!(null), json!([true]), json!({})]).clone(),
                7 => v["parts"][i]["regex_def"] = rng.pick(&[json!(5), json!(null), json!(["a"]), json!({}), json!(true)]).clone(),
                8 => v["parts"][i] = rng.pick(&[json!("a"), json!(null), json!(1), json!([])]).clone(),
                9 => v = json!([v]),
                10 => v = rng.pick(&[json!(null), json!(1), json!("x"), json!(false)]).clone(),
                _ => v = v["parts"].clone(),
            }
            b("wrong JSON structure", Input::Dec(Some(v.to_string().into_bytes())))
        }
        _ => {
            // not JSON
            let mut t = c.def.json_string().into_bytes();
            match rng.below(4) {
                0 => t.truncate(rng.below(t.len())),
                1 => t.extend(b"}"),
                2 => t = vec![0xff, 0xfe, b'{', b'}'],
                _ => mutate_bytes(&mut t, rng),
            }
            if serde_json::from_slice::<Value>(&t).is_ok() {
                return None;
            }
            b("not JSON", Input::Dec(Some(t)))
        }
    }
}
fn lit_part(rng: &mut Rng) -> String {
    (0..rng.range(1, 3)).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
}

// ---------------------------------------------------------------- running one input everywhere

pub type Tree = BTreeMap<String, Vec<u8>>;
pub fn tree(d: &Path) -> Tree {
    fn walk(d: &Path, rel: &str, t: &mut Tree) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let name = format!("{rel}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                t.insert(format!("{name}/"), vec![]);
                walk(&e.path(), &format!("{name}/"), t);
            } else {
                t.insert(name, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut t = Tree::new();
    walk(d, "", &mut t);
    t
}
pub fn tree_diff(a: &Tree, b: &Tree) -> Option<String> {
    for k in a.keys() {
        match b.get(k) {
            None => return Some(format!("{k} was removed")),
            Some(v) if *v != a[k] => return Some(format!("{k} was changed")),
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{k} was created"))
}

#[derive(Clone, Copy)]
struct Routes {
    halo2: bool,
    circom: bool,
    gs: Option<bool>,
    preexisting: bool,
}
#[derive(Debug)]
enum Res {
    Ok,
    Refused(String),
    Crash(String),
}
struct Run {
    entry: &'static str,
    res: Res,
    /// change of the output directory
    change: Option<String>,
}

fn file_routes(input: &Input, no_name: bool, r: Routes, cli: bool, out: &mut Vec<Run>) {
    let entries: &[&str] = if cli { &["cli"] } else { &["lib"] };
    for entry in entries.iter().copied() {
        let s = Scratch::new();
        let o = s.0.join("out");
        std::fs::create_dir_all(o.join("h")).unwrap();
        if r.preexisting {
            for f in ["h/allstr.txt", "h/substr_0.txt", "h/substr_1.txt", "c.circom"] {
                std::fs::write(o.join(f), format!("earlier content of {f}\n").repeat(20)).unwrap();
            }
        }
        let d = s.path("d.json");
        match input {
            Input::Dec(Some(t)) => std::fs::write(&d, t).unwrap(),
            Input::Raw(_, Some(Some(t))) => std::fs::write(&d, t).unwrap(),
            _ => {}
        }
        let before = tree(&o);
        let h = o.join("h").to_str().unwrap().to_string();
        let c = o.join("c.circom").to_str().unwrap().to_string();
        let (hp, cp) = (r.halo2.then_some(h.as_str()), r.circom.then_some(c.as_str()));
        let name = if no_name { None } else { Some("T") };
        let _c = in_call(&format!("{entry} {input:?}"));
        let res = if entry == "cli" {
            let mut k = Command::new(std::env::var("ZK_CLI").expect("ZK_CLI"));
            match input {
                Input::Dec(_) => {
                    k.args(["decomposed", "-d", &d]);
                }
                Input::Raw(x, sub) => {
                    k.args(["raw", &format!("--raw-regex={x}")]);
                    if sub.is_some() {
                        k.args(["-s", &d]);
                    }
                }
            }
            if let Some(h) = hp {
                k.args(["-h", h]);
            }
            if let Some(c) = cp {
                k.args(["-c", c]);
            }
            if let Some(n) = name {
                k.args(["-t", n]);
            }
            if let Some(g) = r.gs {
                k.args(["-g", if g { "true" } else { "false" }]);
            }
            let t = k.output().expect("cli");
            let err = String::from_utf8_lossy(&t.stderr).to_string();
            match t.status.code() {
                Some(0) => Res::Ok,
                None => Res::Crash(format!("ended by a signal: {}", t.status)),
                Some(101) => Res::Crash(format!("panicked: {}", err.lines().next().unwrap_or(""))),
                Some(_) if err.trim().is_empty() => Res::Crash("failed without printing an error".into()),
                Some(_) => Res::Refused(err),
            }
        } else {
            let f = || match input {
                Input::Dec(_) => zk::gen_from_decomposed(&d, hp, cp, name, r.gs),
                Input::Raw(x, sub) => zk::gen_from_raw(x, sub.as_ref().map(|_| d.as_str()), hp, cp, name, r.gs),
            };
            match guard(f) {
                Out::Ok(()) => Res::Ok,
                Out::Err(e) => Res::Refused(e),
                Out::Panic(e) => Res::Crash(e),
            }
        };
        out.push(Run { entry, res, change: tree_diff(&before, &tree(&o)) });
    }
}

/// In-memory config, when the text is a well-typed definition.
fn mem_config(t: &[u8]) -> Option<zk::DecomposedRegexConfig> {
    serde_json::from_slice(t).ok()
}
fn mem_route(input: &Input, no_name: bool, r: Routes, out: &mut Vec<Run>) {
    if let Input::Dec(Some(t)) = input {
        if let Some(mut cfg) = mem_config(t) {
            let s = Scratch::new();
            let c = s.path("c.circom");
            if r.preexisting {
                std::fs::write(&c, "earlier\n").unwrap();
            }
            let before = tree(&s.0);
            let _c = in_call(&format!("mem {input:?}"));
            let res = match guard(|| zk::gen_circom_from_decomposed_regex(&mut cfg, Some(&c), if no_name { None } else { Some("T") }, r.gs)) {
                Out::Ok(()) => Res::Ok,
                Out::Err(e) => Res::Refused(e),
                Out::Panic(e) => Res::Crash(e),
            };
            out.push(Run { entry: "gen_circom_from_decomposed_regex", res, change: tree_diff(&before, &tree(&s.0)) });
        }
    }
}
fn wasm_routes(input: &Input, out: &mut Vec<(Run, bool)>) {
    let mut go = |entry: &'static str, args: Value, is_dfa: bool| {
        let res = match js::call("ZK_WASM", entry, args) {
            Js::Ok(_) => Res::Ok,
            Js::Err(e, _) => Res::Refused(e),
            Js::Trap(e) => Res::Crash(e),
        };
        out.push((Run { entry, res, change: None }, is_dfa));
    };
    match input {
        Input::Dec(Some(t)) => {
            if let Ok(s) = std::str::from_utf8(t) {
                go("genFromDecomposed", json!([s, "T"]), false);
            }
            if let Ok(v) = serde_json::from_slice::<Value>(t) {
                go("genCircom", json!([v, "T"]), false);
                go("genRegexAndDfa", json!([v]), true);
            }
        }
        Input::Raw(x, sub) => {
            let j = match sub {
                None => "{\"transitions\":[]}".to_string(),
                Some(Some(t)) => match std::str::from_utf8(t) {
                    Ok(s) => s.to_string(),
                    Err(_) => return,
                },
                Some(None) => return,
            };
            go("genFromRaw", json!([x, j, "T"]), false);
        }
        _ => {}
    }
}

fn show_input(i: &Input) -> Value {
    match i {
        Input::Dec(None) => json!({"decomposed": null}),
        Input::Dec(Some(t)) => json!({"decomposed": String::from_utf8_lossy(t)}),
        Input::Raw(r, s) => json!({"raw": r, "substrs": s.as_ref().map(|t| t.as_ref().map(|t| String::from_utf8_lossy(t).to_string()))}),
    }
}

fn must_refuse(ctx: &Ctx) {
    ctx.par("refuse", n_cases(ctx), |k, rng| {
        let b = loop {
            if let Some(b) = bad(rng) {
                break b;
            }
        };
        let mut r = Routes {
            halo2: rng.chance(60),
            circom: rng.chance(70),
            gs: *rng.pick(&[None, Some(true), Some(false)]),
            preexisting: rng.chance(60),
        };
        if !r.halo2 && !r.circom {
            r.circom = true;
        }
        if b.no_name {
            r.circom = true;
        }
        let mut runs = vec![];
        file_routes(&b.input, b.no_name, r, false, &mut runs);
        if k % 3 == 0 && !matches!(&b.input, Input::Raw(x, _) if x.contains('\0')) {
            file_routes(&b.input, b.no_name, r, true, &mut runs);
        }
        mem_route(&b.input, b.no_name, r, &mut runs);
        let mut w = vec![];
        if !b.no_name && k % 3 != 0 {
            wasm_routes(&b.input, &mut w);
        }
        for (x, is_dfa) in w {
            if is_dfa && b.dfa_ok {
                if let Res::Crash(_) = x.res {
                    runs.push(x);
                }
                continue;
            }
            runs.push(x);
        }
        let mut any = false;
        for x in &runs {
            ctx.eval(1);
            ctx.count(&format!("entry_{}", x.entry), 1);
            let what = match &x.res {
                Res::Ok => Some(format!("{} accepts a definition with {}", x.entry, b.what)),
                Res::Crash(e) => Some(format!("{} crashes on a definition with {}: {e}", x.entry, b.what)),
                Res::Refused(_) => {
                    any = true;
                    x.change.as_ref().map(|c| format!("{} refuses a definition with {} but {c}", x.entry, b.what))
                }
            };
            if let Some(what) = what {
                ctx.violation(
                    format!("{what} [{}] halo2 {} circom {} gs {:?}", show_input(&b.input), r.halo2, r.circom, r.gs),
                    json!({"case": k, "input": show_input(&b.input), "entry": x.entry, "result": format!("{:?}", x.res), "defect": b.what,
                           "halo2": r.halo2, "circom": r.circom, "gen_substrs": r.gs, "preexisting": r.preexisting}),
                );
            }
        }
        ctx.count(b.what, 1);
        if any {
            ctx.distinct(hash(format!("{:?}", b.input).as_bytes()));
        }
        if k < 12 {
            ctx.sample(json!({"defect": b.what, "input": show_input(&b.input)}));
        }
    });
}

/// Definitions with random edits: whatever the verdict, no crash, and a refusal leaves the outputs alone.
fn fuzz(ctx: &Ctx) {
    ctx.par("fuzz", n_cases(ctx), |k, rng| {
        let raw = rng.chance(30);
        let c = definition(rng, Opts { raw, begin: if raw { 0 } else { 25 }, end: 20, max_parts: 4, any: false });
        let input = if raw {
            let mut t = c.def.raw().into_bytes();
            mutate_bytes(&mut t, rng);
            let t = String::from_utf8_lossy(&t).to_string();
            if !affordable(&[t.clone()]) {
                ctx.count("skipped_expensive", 1);
                return;
            }
            let sub = match rng.below(3) {
                0 => None,
                1 => Some(Some(b"{\"transitions\":[[[0,1],[1,0],[1,1]],[],[[0,0]]]}".to_vec())),
                _ => {
                    let mut s = b"{\"transitions\":[[[0,1],[1,2]],[[2,3]]]}".to_vec();
                    mutate_bytes(&mut s, rng);
                    Some(Some(s))
                }
            };
            Input::Raw(t, sub)
        } else {
            let mut parts = c.def.rendered();
            let t = match rng.below(3) {
                0 => {
                    let mut t = c.def.json_string().into_bytes();
                    mutate_bytes(&mut t, rng);
                    t
                }
                1 => {
                    // mutate the regex texts themselves
                    let i = rng.below(parts.len());
                    let mut t = parts[i].1.clone().into_bytes();
                    mutate_bytes(&mut t, rng);
                    parts[i].1 = String::from_utf8_lossy(&t).to_string();
                    match dec(&parts) {
                        Input::Dec(Some(t)) => t,
                        _ => unreachable!(),
                    }
                }
                _ => {
                    // odd but well-formed combinations
                    let odd = [
                        "", "^", "$", "^$", "\\b", "(?-u:\\b)a", "a^b", "(^)", "(^|$)", "$a", "a$b", "(a$)", "(a|$)", "^^a", "(^a|b)c", "\\", "\u{0}",
                        "\\x00", "(?s).", "(?m)^a$", "\\Aab\\z", "(|a)", "a||b", "()", "(?:)", ".*", "a*", "[^a]*", "\u{feff}", "^*", "(^)*a", "x^|y", "[^]", "(?i)k",
                        "(?x) a b # c", "\\B", "\\<a\\>", "^(a|b)$", "(^", "(^a", "[^", "a(^b)c", "^\\", "(\\r\\n|^", "$$", "\\$$", "(?-u:\\xff)", "(?-u:[\\x80-\\xff])",
                    ];
                    let i = rng.below(parts.len());
                    parts[i].1 = odd[rng.below(odd.len())].to_string();
                    if rng.chance(30) {
                        let j = rng.below(parts.len());
                        parts[j].1 = odd[rng.below(odd.len())].to_string();
                    }
                    match dec(&parts) {
                        Input::Dec(Some(t)) => t,
                        _ => unreachable!(),
                    }
                }
            };
            if let Some(cfg) = mem_config(&t) {
                let p: Vec<String> = cfg.parts.iter().map(|p| p.regex_def.clone()).collect();
                if !affordable(&p) || p.len() > 40 {
                    ctx.count("skipped_expensive", 1);
                    return;
                }
            }
            Input::Dec(Some(t))
        };
        let r = Routes { halo2: rng.chance(70), circom: rng.chance(70), gs: *rng.pick(&[None, Some(true), Some(false)]), preexisting: rng.chance(50) };
        let mut runs = vec![];
        file_routes(&input, false, r, false, &mut runs);
        if k % 10 == 0 && !matches!(&input, Input::Raw(x, _) if x.contains('\0')) {
            file_routes(&input, false, r, true, &mut runs);
        }
        mem_route(&input, false, r, &mut runs);
        if k % 4 == 1 {
            let mut w = vec![];
            wasm_routes(&input, &mut w);
            runs.extend(w.into_iter().map(|x| x.0));
        }
        for x in &runs {
            ctx.eval(1);
            let what = match &x.res {
                Res::Ok => {
                    ctx.count("fuzzed_accepted", 1);
                    None
                }
                Res::Crash(e) => Some(format!("{} crashes: {e}", x.entry)),
                Res::Refused(_) => {
                    ctx.count("fuzzed_refused", 1);
                    x.change.as_ref().map(|c| format!("{} refuses a definition but {c}", x.entry))
                }
            };
            if let Some(what) = what {
                ctx.violation(
                    format!("{what} [{}]", show_input(&input)),
                    json!({"case": k, "input": show_input(&input), "entry": x.entry, "result": format!("{:?}", x.res),
                           "halo2": r.halo2, "circom": r.circom, "gen_substrs": r.gs}),
                );
            }
        }
        ctx.distinct(hash(format!("{input:?}").as_bytes()));
    });
}

/// Values of other types given to the wasm functions, and outputs that cannot be written.
fn odd_calls(ctx: &Ctx) {
    let exprs = [
        "undefined", "null", "5", "'x'", "true", "[]", "({})", "({parts: null})", "({parts: [1]})", "({parts: [{is_public: true}]})", "Symbol('x')",
        "({parts: [{is_public: 'true', regex_def: 'a'}]})", "({parts: [{is_public: true, regex_def: 5}]})", "new Map([['parts', []]])", "() => 1",
        "({parts: [{is_public: true, regex_def: '('}]})", "({parts: []})", "new Date(0)", "({get parts() { throw 'x' }})", "10n", "NaN", "new Uint8Array(3)",
        "({parts: [{is_public: true, regex_def: 'a)(b'}]})", "({parts: 'abc'})", "({parts: new Set([1])})",
    ];
    ctx.par("odd-js", exprs.len() as u64 * 2, |k, _| {
        let e = exprs[k as usize / 2];
        let (f, args) = if k % 2 == 0 { ("genCircom", json!([{ "$js": e }, "T"])) } else { ("genRegexAndDfa", json!([{ "$js": e }])) };
        ctx.eval(1);
        ctx.count("odd_js_values", 1);
        match js::call("ZK_WASM", f, args) {
            Js::Err(..) => ctx.distinct(hash(format!("{f} {e}").as_bytes())),
            x => ctx.violation(format!("{f}({e}) does not throw an error: {x:?}"), json!({"fn": f, "argument": e, "result": format!("{x:?}")})),
        }
    });
    ctx.par("unwritable", 24, |k, rng| {
        let c = definition(rng, Opts::default());
        let s = Scratch::new();
        std::fs::write(s.path("d.json"), c.def.json_string()).unwrap();
        std::fs::write(s.path("file"), "x").unwrap();
        let d = s.path("d.json");
        let (h, cp): (Option<String>, Option<String>) = match k % 4 {
            0 => (Some(s.path("missing/dir")), None),
            1 => (None, Some(s.path("missing/c.circom"))),
            2 => (None, Some(s.0.to_str().unwrap().to_string())),
            _ => (Some(s.path("file")), Some(s.path("file/c.circom"))),
        };
        ctx.eval(1);
        let _c = in_call("unwritable output");
        match guard(|| zk::gen_from_decomposed(&d, h.as_deref(), cp.as_deref(), Some("T"), Some(true))) {
            Out::Err(_) => ctx.count("unwritable_outputs_refused", 1),
            x => ctx.violation(format!("an output that cannot be written: {x:?}"), json!({"halo2": h, "circom": cp})),
        }
    });
}

pub fn c12(ctx: &Ctx) -> i32 {
    ctx.phase(0.15);
    odd_calls(ctx);
    ctx.phase(0.65);
    must_refuse(ctx);
    ctx.phase(1.0);
    fuzz(ctx);
    ctx.finish(
        "definitions with one injected defect (JSON, types, missing files, invalid regex, misplaced $, no or several accepting states, bad substring lists) through file API, in-memory API, CLI and wasm: must be refused without a crash and without touching the output directory (compared before and after); plus random edits of definitions, which must never crash; non-trivial: a distinct input that was refused or fuzzed",
        500,
        &["whether a regex is invalid is decided by regex-syntax itself", "several accepting states: counted on the minimal automaton of the whole regex"],
    )
}
