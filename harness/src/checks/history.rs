//! A08: extraction is a pure function of its arguments, whatever was called before or is called at the same time.
use super::apis::{self, Parts};
use super::circuits::n_cases;
use crate::compile::Out;
use crate::js::{self, Js};
use crate::mail;
use crate::report::Ctx;
use crate::rx;
use crate::util::*;
use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::Barrier;

const JSAPI: &str = "ZK_APIS_WASM";

fn one(q: &Value) -> Value {
    let s = q["input"].as_str().unwrap();
    fn show<T>(o: Out<T>, f: impl Fn(T) -> Value) -> Value {
        match o {
            Out::Ok(v) => json!({"ok": f(v)}),
            Out::Err(e) => json!({"err": e}),
            Out::Panic(e) => json!({"panic": e}),
        }
    }
    if let Some(n) = q["field"].as_str() {
        let f = apis::EXTRACTORS.iter().find(|x| x.0 == n).unwrap().1;
        return show(crate::compile::guard(|| f(s)), |r| apis::ranges_json(&r));
    }
    if let Some(n) = q["pad"].as_u64() {
        return json!({"ok": zk_regex_apis::padding::pad_string(s, n as usize)});
    }
    let p: Parts = q["parts"].as_array().unwrap().iter().map(|x| (x[0].as_bool().unwrap(), x[1].as_str().unwrap().to_string())).collect();
    let private = q["private"].as_bool().unwrap();
    if q["strings"] == true {
        show(apis::strings(s, &p, private), |v| json!(v))
    } else {
        show(apis::idxes(s, &p, private), |r| apis::ranges_json(&r))
    }
}
/// `vh child extract`: one call, asked for on stdin.
pub fn child() -> i32 {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    println!("{}", one(&serde_json::from_str(&s).unwrap()));
    0
}
/// The same call as the first and only one of a process.
fn fresh(q: &Value) -> Option<Value> {
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["child", "extract"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    c.stdin.take().unwrap().write_all(q.to_string().as_bytes()).ok()?;
    let o = c.wait_with_output().ok()?;
    serde_json::from_slice(&o.stdout).ok()
}

/// Definitions that a cache or a state left behind could confuse with `p`.
fn relatives(p: &Parts, rng: &mut Rng) -> Vec<Parts> {
    let mut v = vec![p.clone()];
    let i = rng.below(p.len());
    let mut q = p.clone();
    q[i].0 = !q[i].0;
    v.push(q);
    v.push(p.iter().map(|x| (!x.0, x.1.clone())).collect());
    let whole: String = p.iter().map(|x| x.1.as_str()).collect();
    v.push(vec![(true, whole.clone())]);
    if p.len() > 1 {
        let i = rng.below(p.len() - 1);
        let mut q = p.clone();
        let b = q.remove(i + 1);
        q[i].1 += &b.1;
        v.push(q);
        let mut q = p.clone();
        q.swap(i, i + 1);
        v.push(q);
        v.push(p[..p.len() - 1].to_vec());
        v.push(p[1..].to_vec());
        // the same text, cut one character later or earlier
        let mut q = p.clone();
        if rng.chance(50) {
            if let Some(c) = q[i].1.pop() {
                q[i + 1].1.insert(0, c);
            }
        } else if !q[i + 1].1.is_empty() {
            let c = q[i + 1].1.remove(0);
            q[i].1.push(c);
        }
        v.push(q);
    }
    // other groups around the same text
    let mut q = p.clone();
    q[i].1 = format!("({})", q[i].1);
    v.push(q);
    let mut q = p.clone();
    q[i].1 = format!("(?:{})", q[i].1);
    v.push(q);
    let mut q = p.clone();
    q[i].1 = format!("(?i:{})", q[i].1);
    v.push(q);
    let mut q = p.clone();
    q.insert(i, (rng.chance(50), String::new()));
    v.push(q);
    // as long as before, another character
    let mut q = p.clone();
    let mut c: Vec<char> = q[i].1.chars().collect();
    if !c.is_empty() {
        let k = rng.below(c.len());
        c[k] = *rng.pick(&['a', 'b', 'x', '0', '.', ')', '[', '*']);
        q[i].1 = c.into_iter().collect();
        v.push(q);
    }
    // no regex at all
    let mut q = p.clone();
    q[i].1 = rng.pick(&["[^,+", "(", "a)", "*", "(?P<n>", "\\"]).to_string();
    v.push(q);
    v
}
/// The same text in as many parts, cut at other places between its tokens: groups move to other parts.
fn recut(p: &Parts, rng: &mut Rng) -> Parts {
    let whole: Vec<char> = p.iter().flat_map(|x| x.1.chars()).collect();
    let (mut depth, mut class, mut cuts, mut i) = (0usize, false, vec![0], 0);
    while i < whole.len() {
        match whole[i] {
            '\\' => i += 1,
            '[' => class = true,
            ']' => class = false,
            '(' if !class => depth += 1,
            ')' if !class => depth = depth.saturating_sub(1),
            _ => {}
        }
        i += 1;
        if depth == 0 && !class && !matches!(whole.get(i), Some('*' | '+' | '?' | '{')) {
            cuts.push(i.min(whole.len()));
        }
    }
    let mut at: Vec<usize> = (1..p.len()).map(|_| *rng.pick(&cuts)).collect();
    at.sort();
    at.push(whole.len());
    let mut from = 0;
    p.iter()
        .zip(at)
        .map(|(x, to)| {
            let s = whole[from..to].iter().collect();
            from = to;
            (x.0, s)
        })
        .collect()
}
fn family(rng: &mut Rng) -> Vec<Value> {
    let (tree, mut parts, pool, _) = apis::gen_parts(rng);
    if rng.chance(50) {
        // a group in a part, so that parts and groups are not numbered alike
        let i = rng.below(parts.len());
        let s = &parts[i].1;
        parts[i].1 = if rng.chance(50) { format!("({s})") } else { format!("(?:{s})()") };
    }
    let mut defs = relatives(&parts, rng);
    for _ in 0..3 {
        defs.push(recut(&parts, rng));
    }
    let mut inputs: Vec<String> = (0..2).map(|_| rx::input(&tree, &pool, rng)).collect();
    // inputs that are easily confused: a prefix, an extension, one of the same length, the empty one
    let s = inputs[0].clone();
    let c: Vec<char> = s.chars().collect();
    inputs.push(c[..c.len() / 2].iter().collect());
    inputs.push(format!("{s}{}", rng.pick(&["a", " ", "é", "\n"])));
    if !c.is_empty() {
        let mut d = c.clone();
        let k = rng.below(d.len());
        d[k] = if d[k] == 'a' { 'b' } else { 'a' };
        inputs.push(d.into_iter().collect());
        inputs.push(c.iter().rev().collect());
    }
    inputs.push(String::new());
    let mut v = vec![];
    for _ in 0..20 {
        let d: Vec<Value> = rng.pick(&defs).iter().map(|x| json!([x.0, x.1])).collect();
        v.push(json!({"parts": d, "input": rng.pick(&inputs), "private": rng.chance(50), "strings": rng.chance(40)}));
    }
    // the same definition and input in every mode
    let d: Vec<Value> = parts.iter().map(|x| json!([x.0, x.1])).collect();
    for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
        v.push(json!({"parts": d, "input": inputs[0], "private": a, "strings": b}));
    }
    // the same text and number of parts with all parts reported
    for q in &defs[defs.len() - 3..] {
        let d: Vec<Value> = q.iter().map(|x| json!([x.0, x.1])).collect();
        v.push(json!({"parts": d, "input": inputs[0], "private": true, "strings": rng.chance(20)}));
    }
    let m = mail::any_mail(rng).text;
    for _ in 0..3 {
        v.push(json!({"field": rng.pick(apis::EXTRACTORS).0, "input": if rng.chance(80) { &m } else { &s }}));
    }
    v.push(json!({"pad": s.len() + rng.below(40), "input": s}));
    v
}

/// The call through the wasm API: the same JSON as `one` gives, without the text of errors.
fn in_js(q: &Value, rng: &mut Rng) -> Value {
    let s = &q["input"];
    let r = if let Some(n) = q["field"].as_str() {
        js::call(JSAPI, apis::EXTRACTORS.iter().find(|x| x.0 == n).unwrap().2, json!([s]))
    } else if !q["pad"].is_null() {
        js::call(JSAPI, "padString", json!([s, q["pad"]]))
    } else {
        let d = json!({"parts": q["parts"].as_array().unwrap().iter().map(|x| json!({"is_public": x[0], "regex_def": x[1]})).collect::<Vec<_>>()});
        let d = if rng.chance(70) { json!(d.to_string()) } else { d };
        js::call(JSAPI, if q["strings"] == true { "extractSubstr" } else { "extractSubstrIdxes" }, json!([s, d, q["private"]]))
    };
    match r {
        Js::Ok(v) => json!({"ok": v}),
        Js::Err(_, _) => json!({"err": null}),
        Js::Trap(t) => json!({"trap": t}),
    }
}
fn plain(v: &Value) -> Value {
    if v["err"].is_string() {
        json!({"err": null})
    } else {
        v.clone()
    }
}

pub fn a08(ctx: &Ctx) -> i32 {
    let wasm = std::env::var(JSAPI).is_ok();
    let fail = |what: &str, q: &Value, want: &Value, got: &Value, more: Value| {
        ctx.violation(format!("{what}: {q} gives {got}, alone in a process {want}"), json!({"call": q, "expected": want, "got": got, "more": more}));
    };
    ctx.phase(0.6);
    ctx.par("history", n_cases(ctx), |k, rng| {
        let fam = family(rng);
        let mut base = vec![];
        for q in &fam {
            match fresh(q) {
                Some(v) => base.push(v),
                None => return ctx.error(format!("no answer from a fresh process for {q}")),
            }
        }
        ctx.count("families", 1);
        ctx.count("fresh_processes", fam.len() as u64);
        ctx.count("baselines_with_a_match", base.iter().filter(|b| b.get("ok").is_some()).count() as u64);
        ctx.count("baselines_with_an_error", base.iter().filter(|b| b.get("err").is_some()).count() as u64);
        let mut seq: Vec<usize> = vec![];
        for step in 0..fam.len() * 3 {
            // repetitions, returns to earlier calls, and new ones
            let i = if step > 0 && rng.chance(15) { *rng.pick(&seq) } else { rng.below(fam.len()) };
            seq.push(i);
            let got = one(&fam[i]);
            ctx.eval(1);
            ctx.count("calls_in_a_history", 1);
            if got != base[i] {
                return fail("the result depends on earlier calls", &fam[i], &base[i], &got, json!({"case": k, "history": seq.iter().map(|&i| &fam[i]).collect::<Vec<_>>()}));
            }
            if i > 0 && step > 0 && seq[step - 1] != i && got.get("ok").is_some() {
                ctx.distinct(mix(hash(fam[seq[step - 1]].to_string().as_bytes()), hash(fam[i].to_string().as_bytes())));
            }
        }
        if wasm {
            let mut seq: Vec<usize> = vec![];
            for _ in 0..fam.len() {
                let i = rng.below(fam.len());
                seq.push(i);
                let got = in_js(&fam[i], rng);
                ctx.eval(1);
                ctx.count("calls_in_a_javascript_history", 1);
                if got != plain(&base[i]) {
                    // known finding of A01 and A05, no matter of earlier calls
                    if let Some(p) = fam[i]["parts"].as_array() {
                        let p: Parts = p.iter().map(|x| (x[0].as_bool().unwrap(), x[1].as_str().unwrap().to_string())).collect();
                        if apis::engine_defect(&p, fam[i]["input"].as_str().unwrap(), fam[i]["private"] == true, &base[i]["ok"], &got["ok"]) {
                            ctx.count("engine_defect_natively", 1);
                            continue;
                        }
                    }
                    return fail("the result in JavaScript depends on earlier calls", &fam[i], &base[i], &got, json!({"case": k, "history": seq.iter().map(|&i| &fam[i]).collect::<Vec<_>>()}));
                }
            }
        }
        if k < 3 {
            ctx.sample(json!({"calls": fam.len(), "first": fam[0]}));
        }
    });
    // threads that make calls at the same time
    ctx.phase(1.0);
    for round in 0..100_000 {
        if !ctx.time_left() || ctx.only_case.is_some() {
            break;
        }
        let mut rng = ctx.rng("threads", round);
        let fam = family(&mut rng);
        // single calls first, each already compared with fresh processes in the phase before
        let base: Vec<Value> = fam.iter().map(one).collect();
        let n = 8;
        let bar = Barrier::new(n);
        let bad = std::sync::Mutex::new(None);
        let pool = rng.range(2, fam.len());
        std::thread::scope(|s| {
            for t in 0..n {
                let mut r = ctx.rng("thread", round * 64 + t as u64);
                let (fam, base, bar, bad) = (&fam, &base, &bar, &bad);
                s.spawn(move || {
                    bar.wait();
                    for _ in 0..60 {
                        let i = r.below(pool);
                        let got = one(&fam[i]);
                        if got != base[i] {
                            *bad.lock().unwrap() = Some((i, got));
                            return;
                        }
                        if r.chance(5) {
                            std::thread::yield_now();
                        }
                    }
                });
            }
        });
        ctx.eval(n as u64 * 60);
        ctx.count("calls_in_parallel", n as u64 * 60);
        ctx.count("parallel_rounds", 1);
        if let Some((i, got)) = bad.into_inner().unwrap() {
            fail("the result depends on calls at the same time", &fam[i], &base[i], &got, json!({"round": round, "calls": &fam[..pool]}));
        }
    }
    ctx.finish(
        "families of related definitions (same text cut elsewhere, merged, swapped, other groups, other visibility, one character changed, invalid) and related inputs; every call of a random history and of eight parallel threads is compared with the same call made alone in a fresh process, also in one long-lived JavaScript instance; non-trivial: new ordered pair of different calls whose second one finds a match",
        1000,
        &["a call made alone in a fresh process is right (A01, A02, A03 and A05 decide that)"],
    )
}
