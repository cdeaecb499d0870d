//! Runs the cases of a demonstration (cases.json) against /repo: circuits, tables, extraction.
//! Exit 0: everything as expected; 1: something differs (printed).
#[allow(dead_code)]
mod circom;
use circom::{Circuit, Program};
use serde_json::{json, Value};
use std::collections::HashMap;
use zk_regex_apis::extract_substrs as ex;
use zk_regex_compiler as zk;

struct Got {
    res: Result<(), String>,
    circom: String,
    allstr: String,
    substrs: Vec<String>,
}
fn compile(c: &Value, dir: &str) -> Got {
    if c["keep"].as_bool() != Some(true) {
        let _ = std::fs::remove_dir_all(dir);
    }
    std::fs::create_dir_all(format!("{dir}/h")).unwrap();
    let (d, s, o, h) = (format!("{dir}/d.json"), format!("{dir}/s.json"), format!("{dir}/{}", c["circom"].as_str().unwrap_or("c.circom")), format!("{dir}/h"));
    let gs = c["gs"].as_bool().or(Some(true));
    let name = c["name"].as_str().unwrap_or("T");
    let halo = if c["halo2"].as_bool() == Some(false) { None } else { Some(h.as_str()) };
    let r = std::panic::catch_unwind(|| {
        if let Some(r) = c["raw"].as_str() {
            let sub = if c["substrs"].is_null() {
                None
            } else {
                std::fs::write(&s, c["substrs"].to_string()).unwrap();
                Some(s.as_str())
            };
            let h = if sub.is_none() && gs == Some(true) { None } else { halo };
            zk::gen_from_raw(r, sub, h, Some(&o), Some(name), gs).map_err(|e| e.to_string())
        } else {
            let parts: Vec<Value> = c["parts"].as_array().unwrap().iter().map(|p| json!({"is_public": p[0], "regex_def": p[1]})).collect();
            // "space": white space in front of the definition
            let space = " ".repeat(c["space"].as_u64().unwrap_or(0) as usize);
            std::fs::write(&d, space + &json!({"parts": parts}).to_string()).unwrap();
            zk::gen_from_decomposed(&d, halo, Some(&o), Some(name), gs).map_err(|e| e.to_string())
        }
    });
    let res = r.unwrap_or_else(|_| Err("panic".into()));
    let mut substrs = vec![];
    while let Ok(t) = std::fs::read_to_string(format!("{dir}/h/substr_{}.txt", substrs.len())) {
        substrs.push(t);
    }
    Got { res, circom: std::fs::read_to_string(&o).unwrap_or_default(), allstr: std::fs::read_to_string(format!("{dir}/h/allstr.txt")).unwrap_or_default(), substrs }
}
fn base() -> Program {
    let mut p = Program::default();
    for s in [include_str!("../circomlib/comparators.circom"), include_str!("../circomlib/bitify.circom"), include_str!("../circomlib/gates.circom")] {
        p.add_source(s, true, false).unwrap();
    }
    let h = std::fs::read_to_string("/repo/packages/circom/circuits/regex_helpers.circom").unwrap();
    p.add_source(&h, false, false).unwrap();
    p
}
fn bytes(v: &Value) -> Vec<u64> {
    match v {
        Value::String(s) => s.bytes().map(|b| b as u64).collect(),
        v => v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
    }
}
/// "_" stands for 0
fn show(r: &[u64], n: usize) -> String {
    let s: Vec<u8> = r.iter().map(|&x| if x == 0 { b'_' } else { x as u8 }).collect();
    let mut s = String::from_utf8_lossy(&s).trim_end_matches('_').to_string();
    while s.len() < n {
        s.push('_');
    }
    s
}
fn accepts(t: &str, m: &[u64]) -> bool {
    let mut l = t.lines();
    let s: usize = l.next().unwrap().trim().parse().unwrap();
    let a: usize = l.next().unwrap().trim().parse().unwrap();
    l.next();
    let mut e = HashMap::new();
    for l in l {
        let v: Vec<usize> = l.split(' ').map(|x| x.parse().unwrap()).collect();
        e.insert((v[0], v[2] as u64), v[1]);
    }
    let mut c = s;
    for &b in m {
        match e.get(&(c, b)) {
            Some(&n) => c = n,
            None => return false,
        }
    }
    c == a
}

fn main() {
    let dir = std::env::args().nth(2).unwrap();
    if std::env::args().nth(1).unwrap() == "one" {
        let g = compile(&serde_json::from_str(&std::env::args().nth(3).unwrap()).unwrap(), &dir);
        print!("{:?}{}{}{:?}", g.res, g.circom, g.allstr, g.substrs);
        return;
    }
    let cases: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let bad = std::cell::Cell::new(0);
    let check = |what: String, got: Value, want: &Value| {
        if got != *want {
            println!("DIFFERS: {what}: got {got}, expected {want}");
            bad.set(bad.get() + 1);
        }
    };
    for c in &cases {
        if let Some(e) = c.get("pad") {
            let (t, n) = (e["str"].as_str().unwrap(), e["size"].as_u64().unwrap() as usize);
            let r = std::panic::catch_unwind(|| zk_regex_apis::padding::pad_string(t, n)).ok();
            check(format!("pad {t:?} to {n}"), json!(r), &e["expect"]);
            continue;
        }
        if let Some(e) = c.get("email") {
            let t = e["input"].as_str().unwrap();
            let r = match e["kind"].as_str().unwrap() {
                "email_addr" => ex::extract_email_addr_idxes(t),
                "email_domain" => ex::extract_email_domain_idxes(t),
                "from_all" => ex::extract_from_all_idxes(t),
                "from_addr" => ex::extract_from_addr_idxes(t),
                "to_all" => ex::extract_to_all_idxes(t),
                "to_addr" => ex::extract_to_addr_idxes(t),
                "subject_all" => ex::extract_subject_all_idxes(t),
                "body_hash" => ex::extract_body_hash_idxes(t),
                "timestamp" => ex::extract_timestamp_idxes(t),
                "message_id" => ex::extract_message_id_idxes(t),
                k => panic!("{k}"),
            };
            let got = match r {
                Ok(v) => json!(v.iter().map(|x| &t[x.0..x.1]).collect::<Vec<_>>()),
                Err(_) => json!("error"),
            };
            check(format!("{e}"), got, &e["expect"]);
            continue;
        }
        if let Some(e) = c.get("extract") {
            let cfg = ex::DecomposedRegexConfig {
                parts: e["parts"].as_array().unwrap().iter().map(|p| ex::RegexPartConfig { is_public: p[0].as_bool().unwrap(), regex_def: p[1].as_str().unwrap().into() }).collect(),
            };
            let s = e["input"].as_str().unwrap();
            let private = e["private"].as_bool().unwrap_or(false);
            let r = std::panic::catch_unwind(|| ex::extract_substr_idxes(s, &cfg, private).map_err(|e| e.to_string())).unwrap_or_else(|_| Err("panic".into()));
            let got = match r {
                Ok(_) if e["strings"].as_bool() == Some(true) => json!(ex::extract_substr(s, &cfg, private).ok()),
                Ok(v) => json!(v.iter().map(|x| [x.0, x.1]).collect::<Vec<_>>()),
                Err(t) => match e["expect"].as_str() {
                    Some(w) if t.contains(w) => e["expect"].clone(),
                    _ => json!(t),
                },
            };
            check(format!("extract {e}"), got, &e["expect"]);
            continue;
        }
        let def = c["def"].to_string();
        let g = match c["file"].as_str() {
            Some(f) => Got { res: Ok(()), circom: std::fs::read_to_string(f).unwrap(), allstr: String::new(), substrs: vec![] },
            None => compile(&c["def"], &dir),
        };
        let def = c["file"].as_str().map_or(def, str::to_string);
        if let Some(n) = c["again"].as_u64() {
            // compiled again and again by fresh processes into the same place, after something longer
            let texts: std::collections::BTreeSet<String> = (0..n)
                .map(|_| {
                    let e = std::env::current_exe().unwrap();
                    let o = std::process::Command::new(e).arg("one").arg(&dir).arg(c["def"].to_string()).output().unwrap();
                    String::from_utf8_lossy(&o.stdout).into_owned()
                })
                .collect();
            check(format!("different outputs of {def}"), json!(texts.len()), &json!(1));
        }
        if let Some(e) = c.get("error") {
            check(format!("compiling {def} fails ({:?})", g.res), json!(matches!(&g.res, Err(e) if e != "panic")), e);
            continue;
        }
        if let Err(e) = &g.res {
            println!("DIFFERS: {def} does not compile: {e}");
            bad.set(bad.get() + 1);
            continue;
        }
        for a in c["accepts"].as_array().unwrap_or(&vec![]) {
            check(format!("table of {def} on {a}"), json!(accepts(&g.allstr, &bytes(a))), &json!(true));
        }
        for a in c["rejects"].as_array().unwrap_or(&vec![]) {
            check(format!("table of {def} on {a}"), json!(accepts(&g.allstr, &bytes(a))), &json!(false));
        }
        if let Some(n) = c.get("table_states") {
            let max: u64 = g.allstr.lines().nth(2).unwrap().trim().parse().unwrap();
            check(format!("states of {def}"), json!(max + 1), n);
        }
        if c["deterministic"].as_bool() == Some(true) {
            let mut seen = std::collections::HashSet::new();
            for l in g.allstr.lines().skip(3) {
                let v: Vec<&str> = l.split(' ').collect();
                check(format!("{def}: two transitions from {} on {}", v[0], v[2]), json!(seen.insert((v[0], v[2]))), &json!(true));
            }
        }
        if let Some(n) = c.get("substr_files") {
            check(format!("substring files of {def}"), json!(g.substrs), n);
        }
        let runs = c["runs"].as_array().cloned().unwrap_or_default();
        if runs.is_empty() {
            continue;
        }
        let name = c["name"].as_str().or(c["def"]["name"].as_str()).unwrap_or("T");
        let mut p = base();
        if let Err(e) = p.add_source(&g.circom, false, true) {
            println!("DIFFERS: {def}: not a circuit: {e}");
            bad.set(bad.get() + 1);
            continue;
        }
        for r in &runs {
            let mut m = bytes(&r["msg"]);
            let len = m.len();
            m.resize((r["size"].as_u64().unwrap_or(0) as usize).max(m.len()), 0);
            let q: Result<Circuit, _> = p.instantiate(name, &[m.len() as u64]);
            let q = match q {
                Ok(q) => q,
                Err(e) => {
                    println!("DIFFERS: {def}: msg_bytes = {}: {e:?}", m.len());
                    bad.set(bad.get() + 1);
                    continue;
                }
            };
            let mut w = vec![];
            let ok = q.run(&m, &[], &mut w);
            let what = format!("{def} on {}", r["msg"]);
            if r["out"].is_null() {
                check(format!("witness of {what}"), json!(ok), &json!(false));
                continue;
            }
            check(format!("witness of {what}"), json!(ok), &json!(true));
            if let Some(v) = r["tamper"].as_array() {
                // the prover assigns a hinted signal another value
                let outs = |w: &[u64]| q.outputs.iter().map(|o| q.output(&o.0, w)).collect::<Vec<_>>();
                let honest = outs(&w);
                for (sig, _) in q.hints.iter().filter(|h| h.1) {
                    for v in v {
                        let mut w2 = vec![];
                        if q.run(&m, &[(*sig, v.as_u64().unwrap())], &mut w2) && outs(&w2) != honest {
                            check(format!("signal {sig} := {v} in {what}: other outputs"), json!(true), &json!(false));
                        }
                    }
                }
            }
            check(format!("out of {what}"), json!(q.output("out", &w).unwrap()[0]), &r["out"]);
            for (i, v) in r["reveal"].as_array().unwrap_or(&vec![]).iter().enumerate() {
                let got = q.output(&format!("reveal{i}"), &w).map(|x| show(&x, len));
                check(format!("reveal{i} of {what}"), json!(got), v);
            }
        }
    }
    std::process::exit((bad.get() > 0) as i32);
}
