//! C16: the circuits shipped in packages/circom/circuits/common against their definitions.
use crate::compile::*;
use crate::gen::*;
use crate::mail;
use crate::model::*;
use crate::report::Ctx;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, VecDeque};

pub fn common() -> std::path::PathBuf {
    repo().join("packages/circom/circuits/common")
}
/// (file stem, template)
pub const SIMPLE: &[(&str, &str)] = &[
    ("body_hash", "BodyHashRegex"),
    ("email_addr", "EmailAddrRegex"),
    ("email_domain", "EmailDomainRegex"),
    ("from_all", "FromAllRegex"),
    ("message_id", "MessageIdRegex"),
    ("reversed_bracket", "ReversedBracketRegex"),
    ("subject_all", "SubjectAllRegex"),
    ("timestamp", "TimestampRegex"),
    ("to_all", "ToAllRegex"),
];
const COMPOSED: &[(&str, &str)] = &[
    ("email_addr_with_name", "EmailAddrWithNameRegex"),
    ("from_addr", "FromAddrRegex"),
    ("to_addr", "ToAddrRegex"),
    ("reversed_email_addr_with_name", "ReversedEmailAddrWithNameRegex"),
];
const REV_OLD: [(bool, &str); 3] = [(false, ">"), (true, r"[a-zA-Z0-9.\-]+@[A-Za-z0-9!#$%&'*+=?\-\^_`{|}~./@]+"), (false, "<.*")];

pub fn load_def(p: &std::path::Path) -> Result<(Value, Def), String> {
    let t = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
    let v: Value = serde_json::from_str(&t).map_err(|e| format!("{}: {e}", p.display()))?;
    let d = Def::from_json(&v).ok_or_else(|| format!("{}: not a definition", p.display()))?;
    Ok((v, d))
}

/// What a definition-backed circuit should output: (satisfiable, out, reveals).
type Want = (bool, bool, Vec<Vec<u8>>);

struct Oracles {
    m: HashMap<String, Model>,
    walk: HashMap<String, Model>,
    old: Model,
}
impl Oracles {
    fn new() -> Result<Oracles, String> {
        let mut m = HashMap::new();
        let mut walk = HashMap::new();
        for (n, _) in SIMPLE {
            let (_, d) = load_def(&common().join(format!("{n}.json")))?;
            let k = Model::build_any(&d).map_err(|e| format!("{n}: {e}"))?;
            m.insert(n.to_string(), k);
            let one: String = d.parts.iter().map(|p| format!("(?:{})", p.1)).collect();
            let w = Def { begin: d.begin.clone(), parts: vec![(false, one)], end: d.end };
            walk.insert(n.to_string(), Model::build(&w).map_err(|e| format!("{n}: {e}"))?);
        }
        let old = Def { begin: Begin::No, parts: REV_OLD.iter().map(|p| (p.0, p.1.to_string())).collect(), end: false };
        let old = Model::build(&old).map_err(|e| format!("old: {e}"))?;
        Ok(Oracles { m, walk, old })
    }
    fn scan(&self, n: &str, msg: &[u8]) -> (bool, Vec<Vec<u8>>) {
        let m = &self.m[n];
        let s = m.scan(msg);
        (s.out, if s.out { s.reveals } else { vec![vec![0; msg.len()]; m.n_public] })
    }
    fn with_name(&self, msg: &[u8]) -> (bool, Vec<u8>) {
        let r: Vec<u8> = msg.iter().rev().copied().collect();
        let (o, mut v) = self.scan("reversed_bracket", &r);
        v[0].reverse();
        (o, v.remove(0))
    }
    fn want(&self, n: &str, msg: &[u8]) -> Want {
        match n {
            "email_addr_with_name" => {
                let (o, r) = self.with_name(msg);
                (true, o, vec![r])
            }
            "from_addr" | "to_addr" => {
                let (fo, f) = self.scan(if n == "from_addr" { "from_all" } else { "to_all" }, msg);
                let (no, nr) = self.with_name(&f[0]);
                let (ao, ar) = self.scan("email_addr", &f[0]);
                (fo, no || ao, vec![if no { nr } else { ar.into_iter().next().unwrap() }])
            }
            "reversed_email_addr_with_name" => {
                let s = self.old.scan(msg);
                (true, s.out, if s.out { s.reveals } else { vec![vec![0; msg.len()]] })
            }
            _ => {
                let (o, r) = self.scan(n, msg);
                (true, o, r)
            }
        }
    }
}

/// Do two models accept the same strings with the same visibility of every byte?
fn compare_models(a: &Model, b: &Model) -> Result<usize, String> {
    if a.end != b.end || a.n_public != b.n_public {
        return Err("different anchors or number of public parts".into());
    }
    let mut seen = BTreeMap::from([((0u16, 0u16), String::new())]);
    let mut q = VecDeque::from([(0u16, 0u16)]);
    while let Some((x, y)) = q.pop_front() {
        let path = seen[&(x, y)].clone();
        if a.acc[x as usize] != b.acc[y as usize] {
            return Err(format!("only one accepts {path:?}"));
        }
        for c in 1..256usize {
            let (nx, ny) = (a.t[x as usize][c], b.t[y as usize][c]);
            if (nx == NONE) != (ny == NONE) {
                return Err(format!("after {path:?} only one continues with byte {c}"));
            }
            if nx == NONE {
                continue;
            }
            if a.public[a.cfg[nx as usize].0] != b.public[b.cfg[ny as usize].0] {
                return Err(format!("after {path:?} byte {c} is public in one only"));
            }
            if !seen.contains_key(&(nx, ny)) {
                seen.insert((nx, ny), format!("{path}{}", show(&[c as u8])));
                q.push_back((nx, ny));
            }
        }
    }
    Ok(seen.len())
}

fn static_part(ctx: &Ctx) {
    // every file of the directory loads with its includes and has its template
    let mut names: Vec<String> = std::fs::read_dir(common())
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect())
        .unwrap_or_default();
    names.sort();
    for (stem, tpl) in SIMPLE.iter().chain(COMPOSED) {
        let f = common().join(format!("{stem}_regex.circom"));
        ctx.eval(1);
        if let Err(e) = Sim::from_file(&f, tpl).and_then(|mut s| {
            for n in [1, 2, 7] {
                s.circuit(n)?;
            }
            Ok(())
        }) {
            ctx.violation(format!("bundled circuit {stem}: {e}"), json!({"file": f.display().to_string(), "error": e}));
        }
    }
    for n in names.iter().filter(|n| n.ends_with("_regex.circom")) {
        let stem = n.trim_end_matches("_regex.circom");
        if !SIMPLE.iter().chain(COMPOSED).any(|x| x.0 == stem) {
            ctx.count("unknown_bundled_circuits", 1);
        }
    }
    // the definitions of the extraction APIs against those shipped with the circuits
    for (n, _) in SIMPLE.iter().filter(|x| x.0 != "reversed_bracket") {
        ctx.eval(1);
        let pair = load_def(&common().join(format!("{n}.json")))
            .and_then(|a| Ok((a, load_def(&repo().join(format!("packages/apis/src/decomposed_defs/{n}.json")))?)));
        let ((va, da), (vb, db)) = match pair {
            Ok(x) => x,
            Err(e) => {
                ctx.violation(format!("definition {n}: {e}"), json!({"error": e}));
                continue;
            }
        };
        if va["parts"] == vb["parts"] {
            ctx.count("definitions_identical", 1);
            ctx.distinct(hash(va.to_string().as_bytes()));
            continue;
        }
        let r = match (Model::build_any(&da), Model::build_any(&db)) {
            (Ok(a), Ok(b)) => compare_models(&a, &b),
            (Err(e), _) | (_, Err(e)) => Err(e),
        };
        match r {
            Ok(n) => ctx.count("definition_product_states", n as u64),
            Err(e) => ctx.violation(
                format!("the extraction definition {n} differs from the circuit's: {e}"),
                json!({"circuit": va, "extraction": vb, "difference": e}),
            ),
        }
    }
}

fn messages(o: &Oracles, n: &str, rng: &mut Rng) -> Vec<(Vec<u8>, Option<mail::Mail>)> {
    let mut v: Vec<(Vec<u8>, Option<mail::Mail>)> = vec![];
    let base = match n {
        "from_addr" => "from_all",
        "to_addr" => "to_all",
        "email_addr_with_name" | "reversed_email_addr_with_name" => "reversed_bracket",
        x => x,
    };
    let m = if n == "reversed_email_addr_with_name" { &o.old } else { &o.walk[base] };
    let w = Walks::new(m, rng);
    for _ in 0..40 {
        let s = rng.below(m.t.len()) as u16;
        let b = w.any_byte(rng);
        if let Some(x) = w.probe(s, b, rng) {
            v.push((x, None));
        }
    }
    for _ in 0..30 {
        let max = *rng.pick(&[8usize, 24, 48, 96]);
        v.push((w.message(rng, max), None));
    }
    for _ in 0..16 {
        let ml = mail::mail(rng);
        match n {
            "email_addr" | "email_domain" => {
                let mut t = ml.from.clone();
                if rng.chance(30) {
                    t = format!("{t} {}", ml.to);
                }
                v.push((t.into_bytes(), None));
            }
            "email_addr_with_name" => v.push((ml.from.clone().into_bytes(), None)),
            "reversed_bracket" | "reversed_email_addr_with_name" => {
                let mut t = ml.from.clone().into_bytes();
                t.reverse();
                v.push((t, None));
            }
            _ => v.push((ml.text.clone().into_bytes(), Some(ml))),
        }
    }
    // composed circuits: values with brackets and addresses in odd places, and damaged ones
    if n.ends_with("_addr") || n == "email_addr_with_name" {
        for _ in 0..40 {
            let mut t = String::new();
            let field = if n == "to_addr" { "to:" } else { "from:" };
            if n != "email_addr_with_name" {
                t += *rng.pick(&["", "\r\n", "x:1\r\n", "\n"]);
                t += if rng.chance(90) { field } else { "form:" };
            }
            for _ in 0..rng.range(1, 5) {
                let x = match rng.below(8) {
                    0 => "<".to_string(),
                    1 => ">".to_string(),
                    2 => mail::address(rng),
                    3 => mail::mailbox(rng).0,
                    4 => "@".to_string(),
                    5 => " x ".to_string(),
                    6 => "é".to_string(),
                    _ => format!("<{}>", mail::address(rng)),
                };
                t += &x;
            }
            if n != "email_addr_with_name" {
                t += *rng.pick(&["\r\n", "\r\n", "\r\n", "\r", ""]);
                if rng.chance(30) {
                    t += &format!("\r\n{field}{}\r\n", mail::mailbox(rng).0);
                }
            }
            let mut b = t.into_bytes();
            if rng.chance(20) && !b.is_empty() {
                let k = rng.below(b.len());
                b[k] = w.any_byte(rng);
            }
            v.push((b, None));
        }
    }
    v.retain(|x| x.0.len() <= 512);
    v.sort_by_key(|x| x.0.len());
    v
}

pub fn c16(ctx: &Ctx) -> i32 {
    let o = match Oracles::new() {
        Ok(o) => o,
        Err(e) => {
            ctx.violation(format!("a bundled definition cannot be read: {e}"), json!({"error": e}));
            return ctx.finish("", 0, &[]);
        }
    };
    if ctx.only_case.is_none() {
        static_part(ctx);
    }
    let all: Vec<(&str, &str, bool)> = SIMPLE.iter().map(|x| (x.0, x.1, true)).chain(COMPOSED.iter().map(|x| (x.0, x.1, false))).collect();
    ctx.par("bundled", u64::MAX, |k, rng| {
        let (n, tpl, simple) = all[(k % all.len() as u64) as usize];
        let mut sim = match Sim::from_file(&common().join(format!("{n}_regex.circom")), tpl) {
            Ok(s) => s,
            Err(_) => return,
        };
        // every second round against the circuit compiled now
        let mut fresh = None;
        if simple {
            let j = std::fs::read_to_string(common().join(format!("{n}.json"))).unwrap_or_default();
            match decomposed(&j, tpl, Some(true), false) {
                Out::Ok(c) => match Sim::new(&c.circom, tpl) {
                    Ok(s) => fresh = Some(s),
                    Err(e) => ctx.violation(format!("the circuit compiled from {n}.json is invalid: {e}"), json!({"error": e})),
                },
                x => {
                    let e = x.ok().err().unwrap_or_default();
                    ctx.violation(format!("{n}.json does not compile: {e}"), json!({"error": e}))
                }
            }
        }
        let mut n_eval = 0;
        for (msg, ml) in messages(&o, n, rng) {
            if !ctx.time_left() && ctx.only_case.is_none() {
                break;
            }
            if msg.contains(&255) {
                continue;
            }
            let size = if rng.chance(4) {
                msg.len().max(1)
            } else {
                *[12, 32, 80, 160, 320, 512].iter().find(|&&x| x >= msg.len()).unwrap_or(&512)
            };
            let mut padded = msg.clone();
            padded.resize(size, 0);
            let e = match sim.eval(&msg, size) {
                Ok(e) => e,
                Err(e) => {
                    ctx.violation(format!("bundled circuit {n} cannot be instantiated: {e}"), json!({"msg_bytes": size, "error": e}));
                    break;
                }
            };
            n_eval += 1;
            ctx.count(&format!("{n}_messages"), 1);
            let (sat, out, reveals) = o.want(n, &padded);
            if out && sat {
                ctx.count(&format!("{n}_accepted"), 1);
            }
            if !sat {
                ctx.count("unsatisfiable_expected", 1);
            }
            let got: Vec<Vec<u8>> = e.reveals.iter().map(|r| r.iter().map(|&x| x as u8).collect()).collect();
            let wide = e.reveals.iter().any(|r| r.iter().any(|&x| x > 255));
            if e.ok != sat || (sat && ((e.out == 1) != out || e.out > 1 || wide || got != reveals)) {
                ctx.violation(
                    format!("bundled circuit {n} does not do what its definition says on \"{}\" (msg_bytes {size})", show(&msg)),
                    json!({"circuit": n, "message": show(&msg), "msg_bytes": size,
                           "got": {"satisfied": e.ok, "out": e.out, "reveals": e.reveals},
                           "expected": {"satisfied": sat, "out": out, "reveals": reveals}}),
                );
                break;
            }
            if out {
                ctx.distinct(mix(hash(n.as_bytes()), hash(&padded)));
            }
            if let (true, Some(ml)) = (true, &ml) {
                let (s, l) = match n {
                    "from_all" => ml.at["from"],
                    "to_all" => ml.at["to"],
                    "subject_all" => ml.at["subject"],
                    x => ml.at[x],
                };
                let mut want = vec![0u8; size];
                want[s..s + l].copy_from_slice(&msg[s..s + l]);
                ctx.count("header_blocks", 1);
                if !e.ok || e.out != 1 || got.first() != Some(&want) {
                    ctx.violation(
                        format!("bundled circuit {n} does not reveal the field's value in \"{}\"", show(&msg)),
                        json!({"circuit": n, "message": show(&msg), "value": show(&msg[s..s + l]), "got": {"satisfied": e.ok, "out": e.out, "reveals": e.reveals}}),
                    );
                    break;
                }
            }
            if let Some(f) = fresh.as_mut() {
                match f.eval(&msg, size) {
                    Ok(g) => {
                        ctx.count("compared_with_recompiled", 1);
                        if g != e {
                            ctx.violation(
                                format!("bundled circuit {n} and the one compiled from {n}.json differ on \"{}\"", show(&msg)),
                                json!({"circuit": n, "message": show(&msg), "msg_bytes": size,
                                       "bundled": {"satisfied": e.ok, "out": e.out, "reveals": e.reveals},
                                       "compiled": {"satisfied": g.ok, "out": g.out, "reveals": g.reveals}}),
                            );
                            break;
                        }
                    }
                    Err(x) => {
                        ctx.violation(format!("the circuit compiled from {n}.json cannot be instantiated: {x}"), json!({"error": x}));
                        break;
                    }
                }
            }
            if k < 26 && n_eval == 20 {
                ctx.sample(json!({"circuit": n, "message": show(&msg), "out": e.out}));
            }
        }
        ctx.eval(n_eval);
    });
    ctx.finish(
        "every circuit of packages/circom/circuits/common evaluated on walks of its automaton (half matches, mutations, class boundaries, interior zeros), on synthetic e-mail headers and on odd mailbox lists; judged by the definition's reference scan, by the composition of the reference scans for composed circuits, and by the circuit compiled now from the bundled JSON; non-trivial: accepted (circuit, message)",
        600,
        &["the circuit evaluator and the vendored circomlib templates", "part automata from regex-automata", "reversed_email_addr_with_name has no JSON: the regex in its comment is its definition"],
    )
}
