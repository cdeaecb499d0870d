//! C09 begin anchor, C10 end anchor, C17 padding.
use super::circuits::*;
use crate::compile::*;
use crate::gen::*;
use crate::model::*;
use crate::report::Ctx;
use crate::util::*;
use serde_json::json;

const CARET_DECOYS: &[&str] = &[
    "\\^", "[^a]", "[a^]", "[\\^x]", "(\\^|a)b", "(a|\\^)b", "[^\\]^]x", "\\\\[^^]", "(x|[^y])z", "a\\^b", "[]^]a", "[^]^]a",
    "(?:\\^)", "\\[\\^a", "\\[[^b]", "\\(\\^\\|a\\)b", "[(^|)]c", "(?:[^^]|\\^)d", "\\x5e", "[\\[^]q", "x[^\\\\]y", "(\\(\\^)e", "\\\\\\^",
    "[[:^digit:]]w", "a[b&&[^c]]d", "[^a-y[^b]]f",
];
const DOLLAR_DECOYS: &[&str] = &["\\$", "[$]", "[a$]", "\\\\\\$", "(\\$)", "(?:a|\\$)b", "[^$]", "\\$\\$", "a\\$", "\\x24", "[$b]{2}", "(\\$c)"];
const DOLLAR_REAL: &[&str] = &["\\\\", "[$]", "\\$", "[a\\\\]", "\\\\\\\\", "a", "(\\$)", "x\\\\"];

/// Adds `extra` before (or after) the definition's text, when the result stays supported.
fn with_extra(def: &Def, extra: &str, front: bool, end: bool) -> Option<Case> {
    let mut d = def.clone();
    d.end = end;
    if front {
        d.parts[0].1 = format!("{extra}{}", d.parts[0].1);
    } else {
        let l = d.parts.len() - 1;
        d.parts[l].1 = format!("{}{extra}", d.parts[l].1);
    }
    let model = Model::build(&d).ok()?;
    if model.cfg.len() > 150 {
        return None;
    }
    Some(Case { def: d, model })
}

fn begin_case(k: u64, rng: &mut Rng) -> Case {
    let decoy = k % 3 == 2;
    loop {
        let c = definition(rng, Opts { begin: if decoy { 15 } else { 100 }, end: 10, max_parts: 5, raw: false, any: false });
        // a group is only an anchor group when an anchor is in front: keep top-level alternations in groups
        if !decoy && rng.chance(70) {
            return c;
        }
        let extra = CARET_DECOYS[rng.below(CARET_DECOYS.len())];
        if let Some(c) = with_extra(&c.def, extra, true, c.def.end) {
            return c;
        }
    }
}

fn begin_msgs(c: &Case, w: &Walks, rng: &mut Rng) -> Vec<Vec<u8>> {
    let m = &c.model;
    let mut v = messages(m, w, rng, 25, 15);
    for _ in 0..40 {
        let mut x = vec![];
        match rng.below(8) {
            0 => {}
            1 => x.push(0),
            2 => x.push(w.any_byte(rng)),
            3 => x.extend([b'\r', b'\n']),
            4 => {
                for _ in 0..rng.range(1, 6) {
                    x.push(w.any_byte(rng));
                }
            }
            5 => {
                // an attempt that breaks off
                let f: Vec<u8> = w.full_match(rng).into_iter().filter(|&b| b != 255).collect();
                let k = rng.below(f.len() + 1);
                x.extend(&f[..k]);
            }
            6 => {
                // what the anchor alternative matches (part 0 only)
                let f = w.full_match(rng);
                let mut s = 0u16;
                for &b in &f {
                    if b == 255 || m.cfg[s as usize].0 > 0 {
                        break;
                    }
                    s = m.step(s, b);
                    if s == NONE {
                        break;
                    }
                    x.push(b);
                }
            }
            _ => {
                if let Some(f) = w.plain_match(rng) {
                    let k = f.len().min(rng.range(1, 3));
                    x.extend(&f[..k]);
                }
            }
        }
        let f = if rng.chance(70) { w.anchored_match(rng).or_else(|| w.plain_match(rng)) } else { w.plain_match(rng) };
        x.extend(f.unwrap_or_default());
        match rng.below(3) {
            0 => x.push(w.any_byte(rng)),
            1 => x.extend(w.anchored_match(rng).unwrap_or_default()),
            _ => {}
        }
        x.retain(|&b| b != 255);
        x.truncate(400);
        v.push(x);
    }
    v.sort_by_key(|x| x.len());
    v
}

pub fn c09(ctx: &Ctx) -> i32 {
    let oracles = Oracles::default();
    ctx.phase(0.75);
    drive(
        ctx,
        "begin",
        |k, rng| Job { case: begin_case(k, rng), raw: false, gs: false },
        begin_msgs,
        round_size,
        true,
        |c, msg, e, s, _| {
            if !e.ok {
                return Err("no satisfying witness".into());
            }
            if e.out != s.out as u64 {
                return Err(format!("out = {} but the anchored scan says {}", e.out, s.out as u8));
            }
            if e.out == 1 {
                ctx.count("accepted_and_confirmed", 1);
                if !oracles.is_match(&c.def, msg) {
                    return Err("accepted, but no match is anchored there".into());
                }
            }
            Ok(c.def.begin != Begin::No || c.def.parts[0].1.contains('^'))
        },
    );
    ctx.phase(1.0);
    // the sentinel in the exported table
    ctx.par("table", n_cases(ctx), |k, rng| {
        let c = begin_case(k, rng);
        let d = c.def.json();
        let t = match decomposed(&c.def.json_string(), "T", Some(false), true).ok().and_then(|o| Table::parse(&o.allstr)) {
            Ok(t) => t,
            Err(e) => {
                ctx.violation(format!("no table: {e} [{d}]"), json!({"case": k, "definition": d, "error": e}));
                return;
            }
        };
        ctx.eval(1);
        ctx.count("tables", 1);
        ctx.distinct(hash(c.def.json_string().as_bytes()));
        let anchored = c.def.anchored();
        for (s, r) in t.rows.iter().enumerate() {
            if (r[255] != NO) != (s == 0 && anchored) {
                ctx.violation(
                    format!("state {s} {} a transition on the start-of-message sentinel [{d}]", if r[255] != NO { "has" } else { "lacks" }),
                    json!({"case": k, "definition": d}),
                );
                return;
            }
        }
    });
    ctx.finish(
        "definitions with ^, (X|^), (^|X) in front (X of any shape) and decoys whose first part has escaped carets and carets in classes; messages put the anchored text at position 0, after X, after almost-X, after other bytes and zeros; non-trivial: the definition has a caret and the (circuit, message) pair or table is new",
        500,
        ASSUME,
    )
}

fn end_case(k: u64, rng: &mut Rng) -> (Case, bool) {
    let raw = k % 5 >= 3;
    loop {
        let o = Opts { begin: if raw { 0 } else { 15 }, end: 70, max_parts: 5, raw, any: false };
        let c = definition(rng, o);
        if c.def.end && rng.chance(60) {
            return (c, raw);
        }
        // a raw top-level alternation would take the suffix into its last alternative only: fine, it is still the same text
        let end = rng.chance(50);
        let extra = if end { DOLLAR_REAL[rng.below(DOLLAR_REAL.len())] } else { DOLLAR_DECOYS[rng.below(DOLLAR_DECOYS.len())] };
        if let Some(c) = with_extra(&c.def, extra, false, end) {
            return (c, raw);
        }
    }
}

fn end_msgs(c: &Case, w: &Walks, rng: &mut Rng) -> Vec<Vec<u8>> {
    let m = &c.model;
    let mut v = messages(m, w, rng, 15, 15);
    for _ in 0..50 {
        let mut x: Vec<u8> = vec![];
        for _ in 0..rng.below(3) {
            match rng.below(5) {
                0 => x.push(0),
                1 => x.extend(vec![0u8; rng.range(1, 5)]),
                2 => x.extend(w.full_match(rng)),
                3 => x.push(w.any_byte(rng)),
                _ => {
                    for _ in 0..rng.range(1, 5) {
                        x.push(w.any_byte(rng));
                    }
                }
            }
        }
        x.extend(w.full_match(rng));
        match rng.below(8) {
            0 => x.push(w.any_byte(rng)),
            1 => {
                x.pop();
            }
            2 => {
                x.push(0);
                x.push(w.any_byte(rng));
            }
            3 => x.push(1),
            4 => x.push(254),
            5 => x.push(b'\n'),
            _ => {}
        }
        x.retain(|&b| b != 255);
        x.truncate(400);
        v.push(x);
    }
    v.sort_by_key(|x| x.len());
    v
}

fn exact_or_round(len: usize, rng: &mut Rng) -> usize {
    match rng.below(10) {
        0..=3 => len.max(1),
        4 => len + 1,
        _ => round_size(len, rng),
    }
}

pub fn c10(ctx: &Ctx) -> i32 {
    let oracles = Oracles::default();
    drive(
        ctx,
        "end",
        |k, rng| {
            let (case, raw) = end_case(k, rng);
            Job { case, raw, gs: k % 4 == 0 }
        },
        end_msgs,
        exact_or_round,
        true,
        |c, msg, e, s, n| {
            if !e.ok {
                return Err("no satisfying witness".into());
            }
            if e.out != s.out as u64 {
                return Err(format!("out = {} but the scan says {} (a match was completed: {})", e.out, s.out as u8, s.hit));
            }
            if e.out == 1 {
                ctx.count("accepted_and_confirmed", 1);
                if !oracles.is_match(&c.def, msg) {
                    return Err("accepted, but no match ends there".into());
                }
                if c.def.end && msg[n - 1] != 0 {
                    ctx.count("accepted_at_full_capacity", 1);
                }
            } else if s.hit {
                ctx.count("matches_refused_by_the_anchor", 1);
            }
            Ok(s.hit)
        },
    );
    ctx.finish(
        "end-anchored definitions (raw and decomposed) and decoys ending in an escaped or bracketed dollar; messages put matches at the end, before the end, at full capacity, before and after zeros and single bytes; non-trivial: the scan completes a match somewhere",
        500,
        ASSUME,
    )
}

pub fn c17(ctx: &Ctx) -> i32 {
    ctx.par("pad", n_cases(ctx), |k, rng| {
        let raw_route = k % 4 == 3;
        let c = definition(rng, Opts { begin: if raw_route { 0 } else { 25 }, end: 35, max_parts: 5, raw: raw_route, any: true });
        let d = describe(&c, raw_route);
        let text = match compile_case(&c, raw_route, k % 2 == 0) {
            Ok(t) => t,
            Err(_) => {
                ctx.count("not_compiled", 1);
                return;
            }
        };
        let mut sim = match Sim::new(&text, "T") {
            Ok(s) => s,
            Err(_) => {
                ctx.count("invalid_circuit", 1);
                return;
            }
        };
        let w = Walks::new(&c.model, rng);
        // a byte that no state consumes stands for "anything but a match"
        let dead: Vec<u8> = (1..255u8).filter(|&b| c.model.t.iter().all(|r| r[b as usize] == NONE)).collect();
        let lens = [1usize, 2, 3, 5, 8, 13, 21, 40, 70];
        for _ in 0..6 {
            let mut len = *rng.pick(&lens);
            if w.m.t.len() < 30 && rng.chance(6) {
                len = *rng.pick(&[120, 190, 256]);
            }
            let extra = [0usize, 1, *rng.pick(&[2, 3, 5]), *rng.pick(&[8, 16, 40])];
            let mut msgs: Vec<Vec<u8>> = vec![];
            for _ in 0..8 {
                let mut m = match rng.below(4) {
                    0 => w.message(rng, len),
                    1 => {
                        // ends with a match
                        let mut m = w.message(rng, len);
                        m.extend(w.full_match(rng));
                        m
                    }
                    2 => {
                        // a match is cut by the end, or has a zero inside
                        let mut m = w.full_match(rng);
                        if !m.is_empty() {
                            let i = rng.below(m.len());
                            if rng.chance(50) {
                                m.insert(i, 0);
                            } else {
                                m[i] = 0;
                            }
                        }
                        m
                    }
                    _ => w.full_match(rng),
                };
                m.retain(|&b| b != 255);
                while m.len() > len {
                    if rng.chance(50) {
                        m.remove(0);
                    } else {
                        m.pop();
                    }
                }
                while m.last() == Some(&0) {
                    m.pop();
                }
                msgs.push(m);
            }
            let mut base: Vec<Option<Eval>> = vec![None; msgs.len()];
            for (xi, x) in extra.iter().enumerate() {
                if !ctx.time_left() && ctx.only_case.is_none() {
                    return;
                }
                let n = len + x;
                for (mi, m) in msgs.iter().enumerate() {
                    let e = match sim.eval(m, n) {
                        Ok(e) => e,
                        Err(e) => {
                            ctx.violation(format!("msg_bytes = {n} cannot be instantiated: {e} [{d}]"), json!({"case": k, "definition": d}));
                            return;
                        }
                    };
                    ctx.eval(1);
                    if xi == 0 {
                        base[mi] = Some(e.clone());
                    } else {
                        let b = base[mi].as_ref().unwrap();
                        let same = b.ok == e.ok
                            && b.out == e.out
                            && b.reveals.len() == e.reveals.len()
                            && b.reveals.iter().zip(&e.reveals).all(|(p, q)| p.iter().eq(q[..len].iter()) && q[len..].iter().all(|&z| z == 0));
                        if !same {
                            ctx.violation(
                                format!("\"{}\" gives different results at msg_bytes {len} and {n} [{d}]", show(m)),
                                json!({"case": k, "definition": d, "message": show(m), "sizes": [len, n],
                                       "first": {"satisfied": b.ok, "out": b.out, "reveals": b.reveals},
                                       "second": {"satisfied": e.ok, "out": e.out, "reveals": e.reveals}}),
                            );
                            return;
                        }
                        if e.out == 1 {
                            ctx.count("accepted_at_both_sizes", 1);
                            ctx.distinct(mix(hash(text.as_bytes()), mix(hash(m), n as u64)));
                        }
                    }
                    // a zero inside behaves as a byte that cannot be part of a match
                    if !dead.is_empty() && m.contains(&0) {
                        let b = *rng.pick(&dead);
                        let r: Vec<u8> = m.iter().map(|&x| if x == 0 { b } else { x }).collect();
                        let f = match sim.eval(&r, n) {
                            Ok(f) => f,
                            Err(_) => continue,
                        };
                        ctx.eval(1);
                        ctx.count("interior_zero_pairs", 1);
                        if e.ok != f.ok || e.out != f.out || e.reveals != f.reveals {
                            ctx.violation(
                                format!("a zero byte inside \"{}\" is not inert (msg_bytes {n}) [{d}]", show(m)),
                                json!({"case": k, "definition": d, "message": show(m), "replaced": show(&r), "msg_bytes": n,
                                       "zero": {"satisfied": e.ok, "out": e.out, "reveals": e.reveals},
                                       "replaced_result": {"satisfied": f.ok, "out": f.out, "reveals": f.reveals}}),
                            );
                            return;
                        }
                    }
                }
            }
        }
        ctx.count("definitions", 1);
        if k < 40 {
            ctx.sample(json!({"definition": d, "message": show(&w.message(rng, 30))}));
        }
    });
    ctx.finish(
        "random supported definitions (raw, decomposed, anchored); each content evaluated at its exact size and at three larger capacities, and with interior zeros replaced by a byte that no state consumes; non-trivial: accepted at both sizes, new (circuit, content, size)",
        500,
        ASSUME,
    )
}
