//! C01, C02, C03: circuits evaluated on hostile messages against a search engine and a reference scan.
use crate::compile::*;
use crate::gen::*;
use crate::model::*;
use crate::report::Ctx;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeMap;

pub fn n_cases(ctx: &Ctx) -> u64 {
    if ctx.thorough {
        u64::MAX
    } else {
        100_000
    }
}

/// Independent oracle: is there a match in the content (zero bytes never take part in a match).
pub struct Oracle(regex::bytes::Regex);
impl Oracle {
    pub fn new(def: &Def) -> Result<Oracle, String> {
        regex::bytes::RegexBuilder::new(&def.oracle_pattern())
            .size_limit(64 << 20)
            .build()
            .map(Oracle)
            .map_err(|e| e.to_string())
    }
    pub fn is_match(&self, msg: &[u8]) -> bool {
        let c = msg.len() - msg.iter().rev().take_while(|&&b| b == 0).count();
        let h: Vec<u8> = msg[..c].iter().map(|&b| if b == 0 { 0xff } else { b }).collect();
        self.0.is_match(&h)
    }
}

pub fn messages(m: &Model, w: &Walks, rng: &mut Rng, n_probe: usize, n_rand: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let states = m.t.len();
    if states > 350 {
        // short ones only: a step takes a gate per transition
        let mut v: Vec<Vec<u8>> = (0..6).map(|_| w.message(rng, 10)).collect();
        for _ in 0..10 {
            let mut x: Vec<u8> = w.full_match(rng).into_iter().filter(|&b| b != 255).collect();
            if x.len() <= 24 {
                let junk = w.any_byte(rng);
                x.insert(rng.below(2) * x.len(), junk);
                v.push(x);
            }
        }
        v.truncate(10);
        v.sort_by_key(|x| x.len());
        return v;
    }
    let (n_probe, n_rand) = if states > 160 { (n_probe / 4, n_rand / 4) } else { (n_probe, n_rand) };
    for _ in 0..n_probe {
        let s = rng.below(states) as u16;
        let b = if rng.chance(50) { w.edge_byte(s, rng) } else { w.any_byte(rng) };
        if let Some(x) = w.probe(s, b, rng) {
            if x.len() <= 400 {
                v.push(x);
            }
        }
    }
    for _ in 0..n_rand {
        let max = if states > 160 { rng.range(60, 300) } else { *rng.pick(&[6usize, 12, 24, 48, 64, 96]) };
        v.push(w.message(rng, max));
    }
    if states < 40 && rng.below(12) == 0 {
        // more positions than a byte can count
        for _ in 0..3 {
            let max = rng.range(230, 300);
            let mut x = w.message(rng, max);
            while x.len() < max {
                x.extend(w.message(rng, max - x.len()));
                x.push(w.any_byte(rng));
            }
            v.push(x);
        }
    }
    // grouped by size so that instantiated circuits are reused
    v.sort_by_key(|x| x.len());
    v
}

pub fn compile_case(c: &Case, raw_route: bool, gs: bool) -> Result<String, String> {
    if raw_route {
        raw(&c.def.raw(), None, "T", Some(gs), false).ok().map(|c| c.circom)
    } else {
        decomposed(&c.def.json_string(), "T", Some(gs), false).ok().map(|c| c.circom)
    }
}
pub fn describe(c: &Case, raw_route: bool) -> serde_json::Value {
    if raw_route {
        json!({"raw": c.def.raw()})
    } else {
        c.def.json()
    }
}

pub struct Stats(pub BTreeMap<&'static str, u64>);
impl Stats {
    pub fn inc(&mut self, k: &'static str) {
        *self.0.entry(k).or_default() += 1;
    }
}

/// One circuit to execute.
pub struct Job {
    pub case: Case,
    pub raw: bool,
    pub gs: bool,
}

/// Runs definitions and messages; `judge` sees every evaluated execution.
pub fn drive(
    ctx: &Ctx,
    stream: &str,
    make: impl Fn(u64, &mut Rng) -> Job + Sync,
    msgs_of: impl Fn(&Case, &Walks, &mut Rng) -> Vec<Vec<u8>> + Sync,
    size_of: impl Fn(usize, &mut Rng) -> usize + Sync,
    on_fail: bool,
    judge: impl Fn(&Case, &[u8], &Eval, &Scan, usize) -> Result<bool, String> + Sync,
) {
    ctx.par(stream, n_cases(ctx), |k, rng| {
        let Job { case: c, raw: raw_route, gs } = make(k, rng);
        let mut st = Stats(BTreeMap::new());
        st.inc("definitions");
        if raw_route {
            st.inc("raw_definitions");
        }
        if c.def.begin != Begin::No {
            st.inc("begin_anchored");
        }
        if c.model.ambiguous {
            st.inc("with_ambiguous_boundaries");
        }
        if c.def.end {
            st.inc("end_anchored");
        }
        let d = describe(&c, raw_route);
        let text = match compile_case(&c, raw_route, gs) {
            Ok(t) => t,
            Err(e) => {
                ctx.eval(1);
                if on_fail {
                    ctx.violation(format!("a supported regex does not compile: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                }
                ctx.count("not_compiled", 1);
                return;
            }
        };
        let mut sim = match Sim::new(&text, "T") {
            Ok(s) => s,
            Err(e) => {
                if on_fail {
                    ctx.violation(format!("the circuit is not valid circom: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                }
                ctx.count("invalid_circuit", 1);
                return;
            }
        };
        let w = Walks::new(&c.model, rng);
        let msgs = msgs_of(&c, &w, rng);
        let mut seen_cfg = vec![false; c.model.t.len()];
        let mut n = 0;
        for m in &msgs {
            if !ctx.time_left() && ctx.only_case.is_none() {
                break;
            }
            let size = size_of(m.len(), rng);
            let e = match sim.eval(m, size) {
                Ok(e) => e,
                Err(e) => {
                    if on_fail {
                        ctx.violation(
                            format!("the circuit cannot be instantiated: {e} [{d}]"),
                            json!({"case": k, "definition": d, "error": e}),
                        );
                    }
                    ctx.count("invalid_circuit", 1);
                    break;
                }
            };
            let mut padded = m.clone();
            padded.resize(size, 0);
            let s = c.model.scan(&padded);
            n += 1;
            for &x in &s.visited {
                seen_cfg[x as usize] = true;
            }
            st.inc(if s.out { "scan_accepts" } else { "scan_rejects" });
            if s.abandoned > 0 {
                st.inc("with_abandoned_runs");
            }
            if s.completed > 1 {
                st.inc("with_several_matches");
            }
            if m.contains(&0) {
                st.inc("with_interior_zero");
            }
            if std::str::from_utf8(m).is_err() {
                st.inc("invalid_utf8");
            }
            match judge(&c, &padded, &e, &s, size) {
                Ok(nontrivial) => {
                    if nontrivial {
                        ctx.distinct(mix(hash(text.as_bytes()), hash(&padded)));
                    }
                }
                Err(what) => {
                    ctx.violation(
                        format!("{what} [{d}] on \"{}\" (msg_bytes {size})", show(m)),
                        json!({"case": k, "definition": d, "message": show(m), "bytes": m, "msg_bytes": size,
                               "circuit": {"satisfied": e.ok, "out": e.out, "reveals": e.reveals},
                               "reference": {"out": s.out, "reveals": s.reveals}, "what": what}),
                    );
                    break;
                }
            }
        }
        ctx.eval(n);
        st.0.insert("automaton_states", c.model.t.len() as u64);
        st.0.insert("automaton_states_visited", seen_cfg.iter().filter(|&&x| x).count() as u64);
        ctx.counts(&st.0);
        if k < 40 && !msgs.is_empty() {
            let m = &msgs[msgs.len() / 2];
            ctx.sample(json!({"definition": d, "message": show(m)}));
        }
    });
}

/// A cache of search oracles by pattern.
#[derive(Default)]
pub struct Oracles(std::sync::Mutex<std::collections::HashMap<String, std::sync::Arc<Oracle>>>);
impl Oracles {
    pub fn is_match(&self, def: &Def, msg: &[u8]) -> bool {
        let key = def.oracle_pattern();
        let o = {
            let mut g = self.0.lock().unwrap();
            match g.get(&key) {
                Some(o) => o.clone(),
                None => {
                    if g.len() > 64 {
                        g.clear();
                    }
                    let o = std::sync::Arc::new(Oracle::new(def).map_err(|e| format!("oracle: {e}")).unwrap());
                    g.insert(key, o.clone());
                    o
                }
            }
        };
        o.is_match(msg)
    }
}

pub fn std_msgs(c: &Case, w: &Walks, rng: &mut Rng) -> Vec<Vec<u8>> {
    messages(&c.model, w, rng, 60, 40)
}
fn mixed_job(k: u64, rng: &mut Rng) -> Job {
    let o = mixed(k);
    if k % 200 == 20 {
        if let Some(case) = giant_case(rng, o) {
            return Job { case, raw: o.raw, gs: k % 3 == 0 };
        }
    }
    Job { case: definition(rng, o), raw: o.raw, gs: k % 3 == 0 }
}
fn mixed(k: u64) -> Opts {
    Opts { raw: k % 4 == 3, begin: if k % 4 == 3 { 0 } else { 25 }, any: true, ..Opts::default() }
}
pub const ASSUME: &[&str] = &[
    "circuits are evaluated by the harness's own circom elaborator and witness calculator (Goldilocks field), with vendored circomlib comparators",
    "part automata and the search oracle come from regex-automata 0.4.7 / regex 1.10.6",
];

const RAW_CARET: &str = "raw regex ^abc: the circuit accepts \"xabc\"";

pub fn c01(ctx: &Ctx) -> i32 {
    if ctx.only_case.is_none() {
        ctx.eval(1);
        if let Out::Ok(t) = raw("^abc", None, "T", Some(false), false) {
            if let Ok(e) = Sim::new(&t.circom, "T").and_then(|mut s| s.eval(b"xabc", 8)) {
                if e.ok && e.out == 1 {
                    ctx.violation(RAW_CARET.into(), json!({"raw": "^abc", "message": "xabc", "out": e.out}));
                }
            }
        }
    }
    let oracles = Oracles::default();
    drive(ctx, "sound", mixed_job, std_msgs, round_size, false, |c, msg, e, _s, _| {
        if !e.ok {
            return Ok(false);
        }
        if e.out == 0 {
            return Ok(true);
        }
        ctx.count("accepted_and_confirmed", 1);
        if oracles.is_match(&c.def, msg) {
            Ok(true)
        } else {
            Err(format!("out = {} but the message contains no match", e.out))
        }
    });
    ctx.finish(
        "random supported definitions (decomposed and raw, anchors, 1..12 parts), each circuit evaluated on messages built from its automaton (matches, near misses, partial and repeated attempts, out-of-class bytes, interior zeros, invalid UTF-8); non-trivial: the witness exists and the (circuit, message) pair is new",
        500,
        ASSUME,
    )
}

pub fn c02(ctx: &Ctx) -> i32 {
    drive(ctx, "complete", mixed_job, std_msgs, round_size, true, |_c, _msg, e, s, _| {
        if !e.ok {
            return Err("no satisfying witness for a message of bytes 0..254".into());
        }
        if s.out && e.out != 1 {
            return Err(format!("the scan completes a match but out = {}", e.out));
        }
        Ok(s.out)
    });
    ctx.finish(
        "as C01, judged against the reference scan; non-trivial: the scan completes a match",
        500,
        ASSUME,
    )
}

pub fn c03(ctx: &Ctx) -> i32 {
    drive(
        ctx,
        "reveal",
        |_, rng| Job { case: definition(rng, Opts { begin: 20, end: 15, max_parts: 6, raw: false, any: true }), raw: false, gs: true },
        std_msgs,
        round_size,
        true,
        |c, msg, e, s, n| {
            if !e.ok {
                // nothing is revealed to anybody
                return if s.out { Err("no satisfying witness".into()) } else { Ok(false) };
            }
            if e.reveals.len() != c.model.n_public {
                return Err(format!("{} reveal outputs for {} public parts", e.reveals.len(), c.model.n_public));
            }
            let mut any = false;
            for (i, r) in e.reveals.iter().enumerate() {
                if r.len() != n {
                    return Err(format!("reveal{i} has length {}", r.len()));
                }
                for j in 0..n {
                    let want = if e.out == 0 { 0 } else { s.reveals[i][j] };
                    any |= want != 0;
                    if r[j] != want as u64 {
                        return Err(format!("reveal{i}[{j}] = {} but {want} is expected (message byte {})", r[j], msg[j]));
                    }
                }
            }
            Ok(any || s.hit)
        },
    );
    ctx.finish(
        "as C01 for decomposed definitions with 0..12 public parts, substrings generated; every reveal cell compared with the reference scan's attribution; non-trivial: a match completes or something is revealed",
        500,
        ASSUME,
    )
}
