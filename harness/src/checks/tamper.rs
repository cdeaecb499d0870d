//! C04: faulty provers and out-of-range inputs.
use super::circuits::*;
use crate::circom::felt;
use crate::compile::*;
use crate::gen::*;
use crate::report::Ctx;
use crate::util::*;
use serde_json::json;

const P: u64 = 0xFFFF_FFFF_0000_0001;

fn values(v: u64, rng: &mut Rng) -> Vec<u64> {
    let mut x = vec![0, 1, 2, P - 1, if v + 1 >= P { 0 } else { v + 1 }, rng.next() % P, rng.below(256) as u64];
    x.retain(|&a| a != v);
    x
}

fn value(rng: &mut Rng) -> u64 {
    let v = values(0, rng);
    *rng.pick(&v)
}

pub fn c04(ctx: &Ctx) -> i32 {
    ctx.par("tamper", n_cases(ctx), |k, rng| {
        let raw_route = k % 4 == 3;
        let bundled = k % 10 == 9;
        let (c, d, text, mut sim) = if bundled {
            let (n, tpl) = super::bundled::SIMPLE[(k / 10) as usize % super::bundled::SIMPLE.len()];
            let f = super::bundled::common().join(format!("{n}_regex.circom"));
            let loaded = super::bundled::load_def(&f.with_file_name(format!("{n}.json")))
                .and_then(|(_, def)| Ok(Case { model: crate::model::Model::build_any(&def)?, def }))
                .and_then(|c| Ok((c, Sim::from_file(&f, tpl)?)));
            match loaded {
                Ok((c, s)) => {
                    ctx.count("bundled_circuits", 1);
                    (c, json!({"bundled": n}), n.to_string(), s)
                }
                Err(_) => {
                    ctx.count("invalid_circuit", 1);
                    return;
                }
            }
        } else {
            let c = definition(rng, Opts { begin: if raw_route { 0 } else { 25 }, end: 30, max_parts: 4, raw: raw_route, any: true });
            let d = describe(&c, raw_route);
            let text = match compile_case(&c, raw_route, k % 4 != 0) {
                Ok(t) => t,
                Err(_) => {
                    ctx.count("not_compiled", 1);
                    return;
                }
            };
            match Sim::new(&text, "T") {
                Ok(s) => (c, d, text, s),
                Err(_) => {
                    ctx.count("invalid_circuit", 1);
                    return;
                }
            }
        };
        ctx.count("definitions", 1);
        let w = Walks::new(&c.model, rng);
        for n in [rng.range(1, 3), rng.range(4, 9), rng.range(10, 20)] {
            if !ctx.time_left() && ctx.only_case.is_none() {
                return;
            }
            let (hints, constrained, n_sig) = match sim.circuit(n) {
                Ok(ci) => (ci.hints.clone(), ci.constrained_signals(), ci.n_signals),
                Err(e) => {
                    if e.contains("no value assigned") || e.contains("is never assigned") {
                        ctx.violation(format!("a signal is left to the prover: {e} [{d}]"), json!({"case": k, "definition": d, "msg_bytes": n}));
                        return;
                    }
                    ctx.count("invalid_circuit", 1);
                    return;
                }
            };
            let own: Vec<u32> = hints.iter().filter(|h| h.1).map(|h| h.0).collect();
            let lib: Vec<u32> = hints.iter().filter(|h| !h.1).map(|h| h.0).collect();
            ctx.count("hinted_signals", hints.len() as u64);
            ctx.count("hinted_signals_in_own_templates", own.len() as u64);
            ctx.count("signals", n_sig as u64);
            // inputs
            for round in 0..4 {
                let mut m: Vec<u8> = if round % 2 == 0 { w.full_match(rng) } else { w.message(rng, n) };
                m.retain(|&b| b != 255);
                m.truncate(n);
                m.resize(n, 0);
                let input: Vec<u64> = m.iter().map(|&b| felt(b as i64)).collect();
                let honest = match sim.eval_felts(&input, &[]) {
                    Ok(e) => e,
                    Err(_) => return,
                };
                ctx.eval(1);
                if !honest.ok {
                    ctx.count("honest_unsatisfied", 1);
                    continue;
                }
                let mut attack = |over: Vec<(u32, u64)>, kind: &str| -> bool {
                    ctx.eval(1);
                    let e = match sim.eval_felts(&input, &over) {
                        Ok(e) => e,
                        Err(_) => return true,
                    };
                    if e.ok {
                        ctx.count("tampered_but_satisfied", 1);
                    } else {
                        ctx.count("tampered_rejected", 1);
                    }
                    if e.ok && (e.out != honest.out || e.reveals != honest.reveals) {
                        ctx.violation(
                            format!("the prover can change the outputs for \"{}\" by assigning {kind} [{d}]", show(&m)),
                            json!({"case": k, "definition": d, "message": show(&m), "msg_bytes": n, "assigned": over,
                                   "honest": {"out": honest.out, "reveals": honest.reveals}, "forged": {"out": e.out, "reveals": e.reveals}}),
                        );
                        return false;
                    }
                    true
                };
                ctx.distinct(mix(hash(text.as_bytes()), hash(&m)));
                let mut pool: Vec<u32> = own.clone();
                rng.shuffle(&mut pool);
                for &h in pool.iter().take(200) {
                    for v in values(0, rng).into_iter().chain([0]) {
                        if !attack(vec![(h, v)], "a hinted signal") {
                            return;
                        }
                    }
                }
                for _ in 0..40 {
                    if lib.is_empty() {
                        break;
                    }
                    let h = *rng.pick(&lib);
                    let v = value(rng);
                    if !attack(vec![(h, v)], "a hinted signal of a library template") {
                        return;
                    }
                }
                for _ in 0..30 {
                    let s = *rng.pick(&constrained);
                    let v = value(rng);
                    if !attack(vec![(s, v)], "a constrained signal") {
                        return;
                    }
                }
                let all: Vec<u32> = own.iter().chain(lib.iter()).copied().collect();
                for _ in 0..30 {
                    if all.is_empty() {
                        break;
                    }
                    let over: Vec<(u32, u64)> = (0..rng.range(2, 6))
                        .map(|_| {
                            let h = if !own.is_empty() && rng.chance(70) { *rng.pick(&own) } else { *rng.pick(&all) };
                            (h, value(rng))
                        })
                        .collect();
                    if !attack(over, "several hinted signals") {
                        return;
                    }
                }
                // out-of-range bytes
                for _ in 0..10 {
                    let i = rng.below(n);
                    let v = match rng.below(8) {
                        0 => 255,
                        1 => 256,
                        2 => 256 + (m[i] as u64),
                        3 => 510,
                        4 => rng.range(256, 510) as u64,
                        5 => rng.range(511, 70000) as u64,
                        6 => (rng.next() % P).max(600),
                        _ => P - 2 - rng.below(600) as u64,
                    };
                    // a negative byte just below zero is the documented exception (-1)
                    if v == P - 1 {
                        continue;
                    }
                    let mut inp = input.clone();
                    inp[i] = v;
                    let over: Vec<(u32, u64)> = if rng.chance(50) || lib.is_empty() {
                        vec![]
                    } else {
                        (0..rng.range(1, 3)).map(|_| (*rng.pick(&lib), rng.below(2) as u64)).collect()
                    };
                    ctx.eval(1);
                    ctx.count("out_of_range_inputs", 1);
                    match sim.eval_felts(&inp, &over) {
                        Ok(e) if e.ok => {
                            ctx.violation(
                                format!("message value {v} at {i} has a satisfying witness [{d}]"),
                                json!({"case": k, "definition": d, "input": inp.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "msg_bytes": n,
                                       "out": e.out, "reveals": e.reveals}),
                            );
                            return;
                        }
                        _ => {}
                    }
                }
            }
        }
        if k < 30 {
            ctx.sample(json!({"definition": d}));
        }
    });
    ctx.finish(
        "random supported definitions and the nine bundled circuits with definitions; for honest witnesses at 1..20 bytes the prover deviates at every hinted signal of generated and helper templates (all of them, up to 200), sampled library hints, sampled constrained signals and random combinations; one message value at a time is replaced by 255..510 or another out-of-range field element; non-trivial: new (circuit, message) whose honest witness exists",
        500,
        &["constraints over the Goldilocks field stand for those over BN254 (all values in a circuit are below 2^10)", "vendored circomlib templates are trusted to constrain their outputs"],
    )
}
