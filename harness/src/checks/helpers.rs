//! C19: the helper templates that circuits are built from.
use super::circuits::n_cases;
use crate::circom::{Circuit, Program, P};
use crate::compile::base;
use crate::report::Ctx;
use crate::util::*;
use serde_json::json;

#[derive(Clone, Copy, PartialEq)]
enum H {
    Or,
    Nor,
    OrAnd,
    Acc,
    Last,
}
const ALL: &[(H, &str)] = &[(H::Or, "MultiOR"), (H::Nor, "MultiNOR"), (H::OrAnd, "ORAnd"), (H::Acc, "IsNotZeroAcc"), (H::Last, "LastNotZero")];

fn felt_any(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 | 1 => 0,
        2 => 1,
        3 => P - 1,
        4 => rng.below(256) as u64,
        5 => 1 << rng.below(63),
        _ => rng.next() % P,
    }
}
/// By the names of the inputs: (values in declaration order, expected output)
fn case(h: H, n: u64, c: &Circuit, rng: &mut Rng, exhaustive: Option<u64>) -> Option<(Vec<u64>, u64)> {
    let names: Vec<&str> = c.inputs.iter().map(|x| x.0.as_str()).collect();
    match h {
        H::Or | H::Nor => {
            if names != ["in"] || c.inputs[0].1 != [n as usize] {
                return None;
            }
            let mut v: Vec<u64> = (0..n).map(|i| exhaustive.map_or(0, |x| x >> i & 1)).collect();
            if exhaustive.is_none() {
                match rng.below(4) {
                    0 => {}
                    1 => v[rng.below(n as usize)] = 1,
                    2 => v.iter_mut().for_each(|x| *x = 1),
                    _ => v.iter_mut().for_each(|x| *x = rng.below(2) as u64),
                }
            }
            let or = v.iter().any(|&x| x == 1);
            Some((v, (or == (h == H::Or)) as u64))
        }
        H::OrAnd => {
            let x = exhaustive.unwrap_or(rng.below(8) as u64);
            let v: Vec<u64> = (0..3).map(|i| x >> i & 1).collect();
            (names == ["in"]).then(|| (v.clone(), (v[0] | v[1]) & v[2]))
        }
        H::Acc | H::Last => {
            let (acc, x) = (felt_any(rng), felt_any(rng));
            let want = match h {
                H::Acc => ((acc as u128 + (x != 0) as u128) % P as u128) as u64,
                _ if x != 0 => n,
                _ => acc,
            };
            let v = match names[..] {
                ["acc", "in"] => vec![acc, x],
                ["in", "acc"] => vec![x, acc],
                _ => return None,
            };
            Some((v, want))
        }
    }
}

pub fn c19(ctx: &Ctx) -> i32 {
    ctx.par("helpers", n_cases(ctx), |k, rng| {
        let prog: Program = match base() {
            Ok(p) => p,
            Err(e) => {
                ctx.violation(format!("the helper templates cannot be read: {e}"), json!({"error": e}));
                return;
            }
        };
        let (h, name) = ALL[k as usize % ALL.len()];
        let Some(arity) = prog.template_arity(name) else {
            // generated circuits bring their own needs along; the others are what circuits in use include
            if h != H::Last {
                ctx.violation(format!("regex_helpers.circom has no template {name}"), json!({"template": name}));
            }
            return;
        };
        let round = k / ALL.len() as u64;
        let n: u64 = match h {
            _ if arity == 0 => 0,
            H::Last => rng.below(2000) as u64,
            _ if round < 40 => round + 1,
            _ => *rng.pick(&[1, 2, 3, rng.clone().range(4, 20), rng.clone().range(20, 300), 255, 256, 257]) as u64,
        };
        let args: Vec<u64> = if arity == 0 { vec![] } else { vec![n] };
        let d = format!("{name}({})", args.iter().map(u64::to_string).collect::<Vec<_>>().join(", "));
        let c = match prog.instantiate(name, &args) {
            Ok(c) => c,
            Err(e) => {
                ctx.eval(1);
                ctx.violation(format!("{d} cannot be instantiated: {e}"), json!({"template": d, "error": e}));
                return;
            }
        };
        ctx.count(&format!("instances_{name}"), 1);
        let bits = match h {
            H::Or | H::Nor if n <= 9 => Some(n),
            H::OrAnd => Some(3),
            _ => None,
        };
        let rounds = bits.map_or(40, |b| 1 << b);
        let hints: Vec<u32> = c.hints.iter().map(|x| x.0).collect();
        let constrained = c.constrained_signals();
        let mut w = vec![];
        for i in 0..rounds {
            if !ctx.time_left() && ctx.only_case.is_none() {
                return;
            }
            let Some((input, want)) = case(h, n, &c, rng, bits.map(|_| i as u64)) else {
                ctx.violation(format!("{d} has the inputs {:?}", c.inputs.iter().map(|x| (&x.0, &x.1)).collect::<Vec<_>>()), json!({"template": d}));
                return;
            };
            ctx.eval(1);
            let ok = c.run(&input, &[], &mut w);
            let out = c.output("out", &w);
            if !ok || out.as_deref() != Some(&[want]) {
                ctx.violation(
                    format!("{d} on {input:?}: satisfied = {ok}, out = {out:?}, expected {want}"),
                    json!({"case": k, "template": d, "input": input, "expected": want, "out": out, "satisfied": ok}),
                );
                return;
            }
            ctx.distinct(mix(hash(d.as_bytes()), mix(i as u64, input.iter().fold(7, |a, &x| mix(a, x)))));
            // what else could the prover assign
            for t in 0..12 {
                let s = if t < 8 && !hints.is_empty() { *rng.pick(&hints) } else { *rng.pick(&constrained) };
                let mut over = vec![(s, felt_any(rng))];
                if t % 3 == 0 && !hints.is_empty() {
                    over.push((*rng.pick(&hints), felt_any(rng)));
                }
                ctx.eval(1);
                let ok = c.run(&input, &over, &mut w);
                let out = c.output("out", &w);
                if ok && out.as_deref() != Some(&[want]) {
                    ctx.violation(
                        format!("{d} on {input:?}: the prover can make out = {out:?} instead of {want} by assigning {over:?}"),
                        json!({"case": k, "template": d, "input": input, "expected": want, "out": out, "assigned": over}),
                    );
                    return;
                }
                ctx.count(if ok { "tampered_but_same_output" } else { "tampered_rejected" }, 1);
            }
        }
    });
    ctx.finish(
        "MultiOR and MultiNOR for n = 1..40 and random n up to 300 (all inputs up to 9 bits, else none, one, all, random bits), ORAnd on all bits, IsNotZeroAcc and LastNotZero on random field elements with the special ones frequent; each execution compared with the function the name states and repeated with tampered hints and signals; non-trivial: new (template, parameter, input)",
        2000,
        &["Goldilocks field; vendored circomlib"],
    )
}
