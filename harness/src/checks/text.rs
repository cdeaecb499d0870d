//! C05: the emitted circom text.
use super::circuits::*;
use crate::circom::Program;
use crate::compile::*;
use crate::gen::*;
use crate::model::*;
use crate::report::Ctx;
use crate::util::*;
use serde_json::json;

const NAMES: &[&str] = &["T", "A", "MyTemplate", "emailRegex2", "a_b_c", "x", "Z9", "_p", "SimpleRegexDecomposed", "TheVeryLongTemplateNameThatSomeoneMayWellUseForARegex", "o", "lt2", "q$1"];

/// What the text must be, whatever the definition: one template, its parameter, ports and includes.
fn inspect(text: &str, name: &str, reveals: usize, sizes: &[usize], msgs: &dyn Fn(usize) -> Vec<Vec<u8>>) -> Result<usize, String> {
    let mut p = Program::default();
    p.add_source(text, false, true)?;
    if !p.pragma {
        return Err("no circom pragma".into());
    }
    if !p.includes.iter().any(|i| i.ends_with("regex_helpers.circom")) {
        return Err("regex_helpers.circom is not included".into());
    }
    if p.own_templates != vec![name.to_string()] {
        return Err(format!("templates {:?} instead of {name}", p.own_templates));
    }
    if p.template_arity(name) != Some(1) {
        return Err(format!("template {name} takes {:?} parameters", p.template_arity(name)));
    }
    let mut sim = Sim::new(text, name)?;
    let mut evals = 0;
    for &n in sizes {
        let c = sim.circuit(n)?;
        if c.inputs[0].0 != "msg" {
            return Err(format!("the input is called {}", c.inputs[0].0));
        }
        let mut want: Vec<(String, Vec<usize>)> = vec![("out".into(), vec![])];
        want.extend((0..reveals).map(|i| (format!("reveal{i}"), vec![n])));
        let got: Vec<(String, Vec<usize>)> = c.outputs.iter().map(|o| (o.0.clone(), o.1.clone())).collect();
        if got != want {
            return Err(format!("outputs {got:?} instead of {want:?}"));
        }
        for m in msgs(n) {
            evals += 1;
            let e = sim.eval(&m, n)?;
            if !e.ok {
                return Err(format!("no satisfying witness for \"{}\" (msg_bytes {n})", show(&m)));
            }
        }
    }
    Ok(evals)
}

/// Random lists of edges of the exported table.
pub fn random_lists(t: &Table, rng: &mut Rng) -> Vec<Vec<(usize, usize)>> {
    let mut pairs: Vec<(usize, usize)> = t.edges.iter().map(|e| (e.0, e.1)).collect();
    pairs.sort();
    pairs.dedup();
    (0..rng.range(0, 4))
        .map(|_| {
            let k = match rng.below(5) {
                0 => 0,
                1 => 1,
                2 => pairs.len(),
                _ => rng.range(1, pairs.len()),
            };
            let mut v = pairs.clone();
            rng.shuffle(&mut v);
            v.truncate(k);
            v
        })
        .collect()
}
pub fn lists_json(l: &[Vec<(usize, usize)>]) -> String {
    json!({"transitions": l.iter().map(|v| v.iter().map(|p| [p.0, p.1]).collect::<Vec<_>>()).collect::<Vec<_>>()}).to_string()
}

pub fn c05(ctx: &Ctx) -> i32 {
    ctx.par("text", n_cases(ctx), |k, rng| {
        let raw_route = k % 4 == 3;
        let big = k % 10 == 9;
        let c = definition(
            rng,
            Opts { begin: if raw_route { 0 } else { 25 }, end: 25, max_parts: if big { 12 } else { 5 }, raw: raw_route, any: true },
        );
        let name = *rng.pick(NAMES);
        let d = describe(&c, raw_route);
        let w = Walks::new(&c.model, rng);
        let seed = rng.next();
        let msgs = |n: usize| -> Vec<Vec<u8>> {
            let mut r = Rng::new(mix(seed, n as u64));
            let mut v = vec![vec![]];
            for _ in 0..3 {
                let mut m = if r.chance(60) { w.full_match(&mut r) } else { w.message(&mut r, n) };
                m.retain(|&b| b != 255);
                m.truncate(n);
                v.push(m);
            }
            v
        };
        let mut forms: Vec<(String, Out<String>, usize)> = vec![];
        if raw_route {
            let r = c.def.raw();
            let only = |o: Out<Compiled>| match o {
                Out::Ok(c) => Out::Ok(c.circom),
                Out::Err(e) => Out::Err(e),
                Out::Panic(e) => Out::Panic(e),
            };
            forms.push(("raw, default options".into(), only(raw(&r, None, name, None, false)), 0));
            forms.push(("raw, gen_substrs off".into(), only(raw(&r, None, name, Some(false), false)), 0));
            forms.push(("raw, gen_substrs on".into(), only(raw(&r, None, name, Some(true), false)), 0));
            let empty = r#"{"transitions":[]}"#;
            forms.push(("raw, empty substring list".into(), only(raw(&r, Some(empty), name, None, false)), 0));
            if let Ok(t) = raw_table(&r).ok().and_then(|t| Table::parse(&t)) {
                let l = random_lists(&t, rng);
                let j = lists_json(&l);
                forms.push((format!("raw, substrings {j}"), only(raw(&r, Some(&j), name, None, false)), l.len()));
                forms.push((format!("raw, gen_substrs off, substrings {j}"), only(raw(&r, Some(&j), name, Some(false), false)), 0));
            }
        } else {
            let np = c.def.n_public();
            let j = c.def.json_string();
            for (n, gs, r) in [("default options", None, 0), ("gen_substrs off", Some(false), 0), ("gen_substrs on", Some(true), np)] {
                let o = match decomposed(&j, name, gs, gs == Some(true) && rng.chance(30)) {
                    Out::Ok(c) => Out::Ok(c.circom),
                    Out::Err(e) => Out::Err(e),
                    Out::Panic(e) => Out::Panic(e),
                };
                forms.push((n.into(), o, r));
            }
            let gs = rng.chance(70);
            forms.push((format!("in-memory configuration, gen_substrs {gs}"), decomposed_mem(&c.def, name, Some(gs)), if gs { np } else { 0 }));
        }
        for (what, o, reveals) in forms {
            if !ctx.time_left() && ctx.only_case.is_none() {
                return;
            }
            let text = match o.ok() {
                Ok(t) => t,
                Err(e) => {
                    ctx.violation(format!("{what}: a supported regex does not compile: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                    return;
                }
            };
            let mut sizes = vec![1, 2, rng.range(3, 9)];
            if rng.chance(20) {
                sizes.push(rng.range(16, 70));
            }
            match inspect(&text, name, reveals, &sizes, &msgs) {
                Ok(n) => {
                    ctx.eval(1);
                    ctx.count("witnesses", n as u64);
                    ctx.count(if reveals > 0 { "texts_with_reveals" } else { "texts_without_reveals" }, 1);
                    ctx.count("instantiations", sizes.len() as u64);
                    ctx.distinct(hash(text.as_bytes()));
                }
                Err(e) => {
                    ctx.eval(1);
                    ctx.violation(
                        format!("{what}, template {name}: {e} [{d}]"),
                        json!({"case": k, "definition": d, "form": what, "template": name, "error": e, "text": text.chars().take(4000).collect::<String>()}),
                    );
                    return;
                }
            }
        }
        if k < 30 {
            ctx.sample(json!({"definition": d, "template": name}));
        }
    });
    let _ = NONE;
    ctx.finish(
        "random supported definitions with up to 24 parts, all option forms (decomposed file / memory, raw with and without substring lists, empty lists), thirteen template names; every text parsed, elaborated at several sizes with declaration, bounds, single-assignment and quadratic checks, and run; non-trivial: a new text",
        300,
        ASSUME,
    )
}
