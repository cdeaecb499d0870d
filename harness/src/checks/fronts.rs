//! C13 compilation is a pure function of its input; C14 all front ends agree.
use super::circuits::n_cases;
use super::robust::{tree, tree_diff, Tree};
use super::text::{lists_json, random_lists};
use crate::compile::*;
use crate::gen::*;
use crate::js::{self, Js};
use crate::model::*;
use crate::report::{in_call, Ctx};
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Barrier, Mutex};
use std::time::Instant;
use zk_regex_compiler as zk;

#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Dec(Vec<(bool, String)>),
    Raw(String, Option<Vec<Vec<(usize, usize)>>>),
}
impl Src {
    pub fn json(&self) -> Value {
        match self {
            Src::Dec(p) => json!({"parts": p.iter().map(|(p, r)| json!({"is_public": p, "regex_def": r})).collect::<Vec<_>>()}),
            Src::Raw(r, l) => json!({"raw": r, "transitions": l}),
        }
    }
    /// Text of the file the compiler reads, if any.
    pub fn file(&self) -> Option<String> {
        match self {
            Src::Dec(_) => Some(self.json().to_string()),
            Src::Raw(_, l) => l.as_ref().map(|l| lists_json(l)),
        }
    }
    pub fn halo2_ok(&self, gs: Option<bool>) -> bool {
        match self {
            Src::Dec(_) => true,
            Src::Raw(_, l) => gs == Some(false) || l.as_ref().map_or(true, |l| l.is_empty()),
        }
    }
}

/// Where the outputs go and how.
#[derive(Clone, Debug)]
pub struct Place {
    pub halo2: Option<String>,
    pub circom: Option<String>,
    pub name: Option<String>,
    pub gs: Option<bool>,
}

pub fn via_lib(src: &Src, file: &str, p: &Place) -> Result<(), String> {
    let _c = in_call(&format!("{}", src.json()));
    let f = || match src {
        Src::Dec(_) => zk::gen_from_decomposed(file, p.halo2.as_deref(), p.circom.as_deref(), p.name.as_deref(), p.gs),
        Src::Raw(r, l) => {
            zk::gen_from_raw(r, l.as_ref().map(|_| file), p.halo2.as_deref(), p.circom.as_deref(), p.name.as_deref(), p.gs)
        }
    };
    guard(f).ok()
}
pub fn via_cli(src: &Src, file: &str, p: &Place, long: bool) -> Command {
    let mut k = Command::new(std::env::var("ZK_CLI").expect("ZK_CLI"));
    let o = |s: &'static str, l: &'static str| if long { l } else { s };
    match src {
        Src::Dec(_) => {
            k.args(["decomposed", o("-d", "--decomposed-regex-path"), file]);
        }
        Src::Raw(r, l) => {
            k.args(["raw", &format!("--raw-regex={r}")]);
            if l.is_some() {
                k.args([o("-s", "--substrs-json-path"), file]);
            }
        }
    }
    if let Some(h) = &p.halo2 {
        k.args([o("-h", "--halo2-dir-path"), h]);
    }
    if let Some(c) = &p.circom {
        k.args([o("-c", "--circom-file-path"), c]);
    }
    if let Some(n) = &p.name {
        k.args([o("-t", "--template-name"), n]);
    }
    if let Some(g) = p.gs {
        k.args([o("-g", "--gen-substrs"), if g { "true" } else { "false" }]);
    }
    k
}
fn finish_cli(mut k: Command) -> Result<(), String> {
    let o = k.output().map_err(|e| e.to_string())?;
    if o.status.success() {
        Ok(())
    } else {
        Err(format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr)))
    }
}
/// Standard places below a directory: `h/` and `c.circom`.
pub fn place(d: &Path, src: &Src, gs: Option<bool>) -> Place {
    let h = d.join("h");
    std::fs::create_dir_all(&h).unwrap();
    Place {
        halo2: src.halo2_ok(gs).then(|| h.to_str().unwrap().to_string()),
        circom: Some(d.join("c.circom").to_str().unwrap().to_string()),
        name: Some("Tq9base".into()),
        gs,
    }
}

pub fn source(rng: &mut Rng) -> Src {
    let raw = rng.chance(30);
    let c = definition(rng, Opts { raw, begin: if raw { 0 } else { 25 }, end: 15, max_parts: 4, any: true });
    if raw {
        let r = c.def.raw();
        let l = match raw_table(&r).ok().and_then(|t| Table::parse(&t)) {
            Ok(t) if rng.chance(60) => Some(random_lists(&t, rng)),
            _ => None,
        };
        Src::Raw(r, l)
    } else {
        Src::Dec(c.def.rendered())
    }
}

/// Definitions that are easily confused with this one.
fn relatives(src: &Src, rng: &mut Rng) -> Vec<Src> {
    let mut v = vec![src.clone()];
    match src {
        Src::Dec(p) => {
            let i = rng.below(p.len());
            let mut q = p.clone();
            q[i].0 = !q[i].0;
            v.push(Src::Dec(q));
            v.push(Src::Dec(p.iter().map(|x| (!x.0, x.1.clone())).collect()));
            if p.len() > 1 {
                // the same text, cut elsewhere
                let i = rng.below(p.len() - 1);
                let mut q = p.clone();
                let b = q.remove(i + 1);
                q[i].1 += &b.1;
                v.push(Src::Dec(q));
                let mut q = p.clone();
                q.swap(i, i + 1);
                v.push(Src::Dec(q));
                v.push(Src::Dec(p[..p.len() - 1].to_vec()));
            }
            let whole: String = p.iter().map(|x| x.1.clone()).collect();
            v.push(Src::Raw(whole.clone(), None));
            v.push(Src::Dec(vec![(true, whole)]));
            let mut q = p.clone();
            let l = q.len() - 1;
            match q[l].1.strip_suffix('$') {
                Some(s) => q[l].1 = s.to_string(),
                None => q[l].1.push('$'),
            }
            v.push(Src::Dec(q));
        }
        Src::Raw(r, l) => {
            v.push(Src::Raw(r.clone(), None));
            v.push(Src::Raw(r.clone(), Some(vec![])));
            v.push(Src::Raw(r.clone(), Some(vec![vec![(0, 1)]])));
            v.push(Src::Dec(vec![(rng.chance(50), r.clone())]));
            v.push(Src::Raw(format!("({r})"), l.clone()));
            v.push(Src::Raw(format!("{r}$"), l.clone()));
            if let Some(l) = l {
                let mut k = l.clone();
                k.reverse();
                v.push(Src::Raw(r.clone(), Some(k)));
            }
        }
    }
    v
}

struct Job2 {
    src: Src,
    pub gs: Option<bool>,
    ok: bool,
    tree: Tree,
}
fn fresh_process(src: &Src, gs: Option<bool>) -> Job2 {
    let s = Scratch::new();
    let f = s.path("d.json");
    if let Some(t) = src.file() {
        std::fs::write(&f, t).unwrap();
    }
    let o = s.0.join("out");
    let p = place(&o, src, gs);
    let r = finish_cli(via_cli(src, &f, &p, false));
    Job2 { src: src.clone(), gs, ok: r.is_ok(), tree: tree(&o) }
}
fn in_process(src: &Src, gs: Option<bool>) -> (bool, Tree) {
    let s = Scratch::new();
    let f = s.path("d.json");
    if let Some(t) = src.file() {
        std::fs::write(&f, t).unwrap();
    }
    let o = s.0.join("out");
    let p = place(&o, src, gs);
    let r = via_lib(src, &f, &p);
    (r.is_ok(), tree(&o))
}

pub fn c13(ctx: &Ctx) -> i32 {
    let keep: Mutex<Vec<Job2>> = Mutex::new(vec![]);
    let orders: Mutex<BTreeSet<Vec<usize>>> = Mutex::new(BTreeSet::new());
    let fail = |what: String, src: &Src, more: Value| {
        ctx.violation(format!("{what} [{}]", src.json()), json!({"definition": src.json(), "what": what, "more": more}));
    };

    // locations: paths, names, earlier files, working directory, environment, the same config value again
    ctx.phase(0.25);
    ctx.par("location", n_cases(ctx), |k, rng| {
        let src = source(rng);
        let gs = Some(rng.chance(70));
        let (ok, base) = in_process(&src, gs);
        if !ok {
            ctx.count("not_compiled", 1);
            return;
        }
        let base_text = String::from_utf8_lossy(&base["c.circom"]).to_string();
        let variants = ["longer files", "empty files", "similar files", "odd path", "relative", "symlink", "name", "env", "reuse", "trailing slash", "halo2 left out", "again", "odd names", "odd names"];
        for (vi, v) in variants.iter().enumerate() {
            if (k as usize + vi) % 3 != 0 && ctx.only_case.is_none() {
                continue;
            }
            let s = Scratch::new();
            let mut dir = s.0.join("out");
            let mut name = "Tq9base".to_string();
            let mut f = s.path("d.json");
            match *v {
                "odd path" => {
                    dir = s.0.join("a b/ü'\"$(x);&.circom/日本");
                    f = s.path("defs 1é.json");
                }
                "name" => name = ["Zz", "Other_name1", "A", "Tq9baseTq9base", "ThisNameIsLongerThanTheOthers_0123456789"][rng.below(5)].to_string(),
                _ => {}
            }
            if let Some(t) = src.file() {
                std::fs::write(&f, t).unwrap();
            }
            let mut p = place(&dir, &src, gs);
            p.name = Some(name.clone());
            let mut want = base.clone();
            match *v {
                "longer files" | "empty files" | "similar files" => {
                    for (n, b) in &base {
                        if n.ends_with('/') {
                            continue;
                        }
                        let mut old = vec![];
                        if *v == "similar files" && !b.is_empty() {
                            old = b.clone();
                            let i = rng.below(old.len());
                            match rng.below(4) {
                                0 => old.fill(b'x'),
                                1 => old[i] ^= 1,
                                2 => old.truncate(i),
                                // another definition's output of the same length
                                _ => old.iter_mut().for_each(|c| {
                                    if c.is_ascii_digit() {
                                        *c = b'0' + (*c - b'0' + 1) % 10
                                    }
                                }),
                            }
                        }
                        if *v == "longer files" {
                            old = b.clone();
                            old.extend(b"\n1 2 3\n// the rest of an earlier and longer file }\n".repeat(rng.range(1, 400)));
                        }
                        std::fs::write(dir.join(n), old).unwrap();
                    }
                }
                "symlink" => {
                    let real = s.0.join("real");
                    std::fs::create_dir_all(real.join("h")).unwrap();
                    std::fs::remove_dir_all(&dir).unwrap();
                    std::os::unix::fs::symlink(&real, &dir).unwrap();
                }
                "odd names" => {
                    // names without, with other and with several extensions; a place for tables that is named like one
                    let c = *rng.pick(&["out", "x.txt", "a.b.c", ".hidden", "c.circom.bak", "C.CIRCOM", "-c", "allstr.txt", "circuit.circom~", "é", "x.json", "Tq9base", "c .circom", "c\u{a0}", "h2"]);
                    let h = *rng.pick(&["h.v1", "substr_0.txt", "1", "tables.d/", "x/y.z/w", "halo2 ", "h\\n", "circom", "allstr"]);
                    let from = std::mem::take(&mut want);
                    let base_h = h.trim_end_matches('/');
                    for (n, b) in from {
                        match n.strip_prefix("h/") {
                            Some(r) => want.insert(format!("{base_h}/{r}"), b),
                            None if n == "c.circom" => want.insert(c.to_string(), b),
                            None => want.insert(n, b),
                        };
                    }
                    if base_h.contains('/') {
                        want.insert("x/".into(), vec![]);
                        want.insert("x/y.z/".into(), vec![]);
                    }
                    std::fs::remove_dir_all(dir.join("h")).unwrap();
                    std::fs::create_dir_all(dir.join(base_h)).unwrap();
                    p.circom = Some(dir.join(c).to_str().unwrap().to_string());
                    if p.halo2.is_some() {
                        p.halo2 = Some(dir.join(h).to_str().unwrap().to_string());
                    }
                    let g = s.path(rng.pick(&["d", "d.txt", "D.JSON", ".d", "d.json.gz", "-d", "d.toml", "d.circom"]));
                    if src.file().is_some() {
                        std::fs::rename(&f, &g).unwrap();
                        f = g;
                    }
                }
                "trailing slash" => p.halo2 = p.halo2.map(|h| h + "//"),
                "halo2 left out" => {
                    p.halo2 = None;
                    want.retain(|n, _| n == "h/" || n == "c.circom");
                }
                _ => {}
            }
            if *v == "name" {
                want.insert("c.circom".into(), base_text.replace("Tq9base", &name).into_bytes());
            }
            let r = match *v {
                "relative" | "env" => {
                    let mut q = p.clone();
                    let mut cwd = PathBuf::from("/");
                    let mut file = f.clone();
                    if *v == "relative" {
                        cwd = dir.join("h");
                        q.halo2 = q.halo2.map(|_| ".".into());
                        q.circom = Some("../c.circom".into());
                        file = "../../d.json".into();
                    }
                    let mut c = via_cli(&src, &file, &q, rng.chance(50));
                    c.current_dir(&cwd);
                    if *v == "env" {
                        c.env_clear();
                        for (a, b) in [
                            ("LANG", "de_DE.UTF-8"), ("LC_ALL", "C"), ("TZ", "Asia/Tokyo"), ("HOME", "/nonexistent"), ("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"),
                            ("COLUMNS", "20"), ("NO_COLOR", "1"), ("SOURCE_DATE_EPOCH", "1"), ("TMPDIR", "/nonexistent"), ("DEBUG", "1"), ("USER", "nobody"), ("CI", "1"),
                            ("VERBOSE", "1"), ("PROFILE", "release"), ("CARGO_MANIFEST_DIR", "/nonexistent"), ("PATH", "/bin"),
                        ] {
                            if rng.chance(70) {
                                c.env(a, b);
                            }
                        }
                    }
                    finish_cli(c)
                }
                "reuse" => {
                    // one in-memory definition, compiled several times
                    if let Src::Dec(parts) = &src {
                        let mut cfg = config(parts);
                        let mut r = Ok(());
                        for _ in 0..rng.range(1, 4) {
                            r = guard(|| zk::gen_circom_from_decomposed_regex(&mut cfg, p.circom.as_deref(), p.name.as_deref(), gs)).ok();
                            if r.is_err() {
                                break;
                            }
                        }
                        want.retain(|n, _| n == "h/" || n == "c.circom");
                        r
                    } else {
                        via_lib(&src, &f, &p)
                    }
                }
                _ => via_lib(&src, &f, &p),
            };
            ctx.eval(1);
            ctx.count(&format!("location_{}", v.replace(' ', "_")), 1);
            if let Err(e) = r {
                fail(format!("compilation fails with another location ({v}): {e}"), &src, json!({"case": k}));
                continue;
            }
            if let Some(d) = tree_diff(&want, &tree(&dir)) {
                fail(format!("output depends on the location ({v}): {d}"), &src, json!({"case": k, "gen_substrs": gs}));
                continue;
            }
            ctx.distinct(hash(format!("{v}{src:?}").as_bytes()));
        }
    });

    // histories: every result must equal that of a fresh process, whatever was compiled before
    ctx.phase(0.5);
    ctx.par("history", n_cases(ctx), |k, rng| {
        let src = source(rng);
        let fam: Vec<Job2> = relatives(&src, rng)
            .into_iter()
            .map(|s| {
                let gs = *rng.pick(&[None, Some(true), Some(false), Some(true)]);
                fresh_process(&s, gs)
            })
            .collect();
        let n = fam.len() * 2 + 4;
        let mut seq = vec![];
        for _ in 0..n {
            if !ctx.time_left() && ctx.only_case.is_none() {
                break;
            }
            let i = rng.below(fam.len());
            seq.push(i);
            let j = &fam[i];
            let (ok, t) = in_process(&j.src, j.gs);
            ctx.eval(1);
            ctx.count("history_steps", 1);
            if ok != j.ok {
                return fail(
                    format!("a compilation {} after others but {} in a fresh process", if ok { "succeeds" } else { "fails" }, if j.ok { "succeeds" } else { "fails" }),
                    &j.src,
                    json!({"case": k, "history": seq.iter().map(|&i| fam[i].src.json()).collect::<Vec<_>>()}),
                );
            }
            if let Some(d) = tree_diff(&j.tree, &t) {
                return fail(
                    format!("output depends on what was compiled before, or differs between processes: {d}"),
                    &j.src,
                    json!({"case": k, "gen_substrs": j.gs, "history": seq.iter().map(|&i| fam[i].src.json()).collect::<Vec<_>>()}),
                );
            }
            if ok {
                ctx.distinct(hash(format!("{seq:?}{:?}", j.src).as_bytes()));
            }
        }
        ctx.count("families", 1);
        let mut g = keep.lock().unwrap();
        if g.len() < 40 {
            g.extend(fam.into_iter().filter(|j| j.ok));
        }
    });

    // threads that compile at the same time, into the same directory
    ctx.phase(0.75);
    let threads = 8;
    let rounds = if ctx.thorough { 100_000 } else { 3_000 };
    for round in 0..rounds {
        if !ctx.time_left() || ctx.only_case.is_some() {
            break;
        }
        let mut rng = ctx.rng("threads", round);
        let mut pool: Vec<(Src, Option<bool>, Tree)> = vec![];
        let first = source(&mut rng);
        let mut cands = relatives(&first, &mut rng);
        cands.push(source(&mut rng));
        for s in cands {
            let gs = Some(rng.chance(70));
            let (ok, t) = in_process(&s, gs);
            if ok {
                pool.push((s, gs, t));
            }
            if pool.len() == 5 {
                break;
            }
        }
        if pool.is_empty() {
            continue;
        }
        let s = Scratch::new();
        let shared = s.0.join("shared");
        std::fs::create_dir_all(&shared).unwrap();
        let pick: Vec<usize> = (0..threads).map(|_| rng.below(pool.len())).collect();
        let bar = Barrier::new(threads);
        let ends: Mutex<Vec<(usize, Instant, Instant)>> = Mutex::new(vec![]);
        let bad: Mutex<Vec<(String, Src)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (src, gs, want) = &pool[pick[t]];
                let (bar, ends, bad, shared) = (&bar, &ends, &bad, &shared);
                sc.spawn(move || {
                    let f = shared.join(format!("d{t}.json"));
                    if let Some(x) = src.file() {
                        std::fs::write(&f, x).unwrap();
                    }
                    let h = shared.join(format!("h{t}"));
                    std::fs::create_dir_all(&h).unwrap();
                    let p = Place {
                        halo2: src.halo2_ok(*gs).then(|| h.to_str().unwrap().to_string()),
                        circom: Some(shared.join(format!("c{t}.circom")).to_str().unwrap().to_string()),
                        name: Some("Tq9base".into()),
                        gs: *gs,
                    };
                    bar.wait();
                    for _ in 0..3 {
                        let a = Instant::now();
                        let r = via_lib(src, f.to_str().unwrap(), &p);
                        ends.lock().unwrap().push((t, a, Instant::now()));
                        let mut got = Tree::new();
                        got.insert("h/".into(), vec![]);
                        for (n, b) in tree(&h) {
                            got.insert(format!("h/{n}"), b);
                        }
                        if let Ok(b) = std::fs::read(p.circom.as_ref().unwrap()) {
                            got.insert("c.circom".into(), b);
                        }
                        if let Err(e) = r {
                            bad.lock().unwrap().push((format!("a compilation fails while others run: {e}"), src.clone()));
                        } else if let Some(d) = tree_diff(want, &got) {
                            bad.lock().unwrap().push((format!("output differs while other compilations run: {d}"), src.clone()));
                        }
                    }
                });
            }
        });
        for (w, src) in bad.into_inner().unwrap() {
            fail(w, &src, json!({"round": round, "running": pick.iter().map(|&i| pool[i].0.json()).collect::<Vec<_>>()}));
        }
        let e = ends.into_inner().unwrap();
        let mut overlaps = 0;
        for i in 0..e.len() {
            for j in i + 1..e.len() {
                if e[i].0 != e[j].0 && e[i].1 < e[j].2 && e[j].1 < e[i].2 {
                    overlaps += 1;
                }
            }
        }
        ctx.eval(e.len() as u64);
        ctx.count("overlapping_pairs_of_compilations", overlaps);
        ctx.count("thread_rounds", 1);
        orders.lock().unwrap().insert(e.iter().map(|x| x.0).collect());
        ctx.distinct(hash(format!("{round}{pick:?}").as_bytes()));
    }
    ctx.count("distinct_completion_orders", orders.lock().unwrap().len() as u64);

    // processes that run at the same time in one directory
    ctx.phase(0.97);
    for round in 0..if ctx.thorough { 20_000u64 } else { 400 } {
        if !ctx.time_left() || ctx.only_case.is_some() {
            break;
        }
        let mut rng = ctx.rng("processes", round);
        let s = Scratch::new();
        let mut kids = vec![];
        let a = source(&mut rng);
        let b = source(&mut rng);
        for t in 0..8 {
            let src = if rng.chance(50) { a.clone() } else { b.clone() };
            let gs = Some(rng.chance(70));
            let (ok, want) = in_process(&src, gs);
            if !ok {
                continue;
            }
            let f = s.0.join(format!("d{t}.json"));
            if let Some(x) = src.file() {
                std::fs::write(&f, x).unwrap();
            }
            let h = s.0.join(format!("h{t}"));
            std::fs::create_dir_all(&h).unwrap();
            let p = Place {
                halo2: src.halo2_ok(gs).then(|| format!("h{t}")),
                circom: Some(format!("c{t}.circom")),
                name: Some("Tq9base".into()),
                gs,
            };
            let mut c = via_cli(&src, &format!("d{t}.json"), &p, false);
            c.current_dir(&s.0);
            kids.push((t, src, want, c));
        }
        let mut run: Vec<_> = kids
            .into_iter()
            .map(|(t, src, want, mut c)| (t, src, want, c.stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null()).spawn().expect("cli")))
            .collect();
        for (_, _, _, k) in run.iter_mut() {
            let _ = k.wait();
        }
        for (t, src, want, _) in run {
            let mut got = Tree::new();
            got.insert("h/".into(), vec![]);
            for (n, b) in tree(&s.0.join(format!("h{t}"))) {
                got.insert(format!("h/{n}"), b);
            }
            if let Ok(b) = std::fs::read(s.0.join(format!("c{t}.circom"))) {
                got.insert("c.circom".into(), b);
            }
            ctx.eval(1);
            ctx.count("concurrent_processes", 1);
            if let Some(d) = tree_diff(&want, &got) {
                fail(format!("output differs while other processes compile: {d}"), &src, json!({"round": round}));
            }
        }
    }

    // and once more what was compiled first
    ctx.phase(1.2);
    let kept = keep.into_inner().unwrap();
    for j in kept {
        if !ctx.time_left() {
            break;
        }
        let (ok, t) = in_process(&j.src, j.gs);
        ctx.eval(1);
        ctx.count("compiled_again_at_the_end", 1);
        if !ok || tree_diff(&j.tree, &t).is_some() {
            fail("output of the same input has changed during the run".into(), &j.src, json!({"gen_substrs": j.gs}));
        }
    }
    ctx.finish(
        "families of easily confused definitions compiled in random orders and compared with a fresh process; output locations, earlier files, names, working directories, environments; 8 threads released by a barrier into one directory; concurrent CLI processes; all outputs compared byte for byte; non-trivial: a new (history, definition) or location pair that compiled",
        400,
        &["file system semantics of the sandbox"],
    )
}

// ---------------------------------------------------------------- C14

fn table_of_json(v: &Value) -> Option<BTreeSet<(usize, usize, usize)>> {
    let mut s = BTreeSet::new();
    for (i, st) in v["dfa"]["states"].as_array()?.iter().enumerate() {
        for (dst, bytes) in st["transitions"].as_object()? {
            for b in bytes.as_array()? {
                s.insert((i, dst.parse().ok()?, b.as_u64()? as usize));
            }
        }
    }
    Some(s)
}

fn reformat(parts: &[(bool, String)], rng: &mut Rng) -> String {
    // the same JSON value in another spelling
    let esc = |s: &str, all: bool| -> String {
        let mut o = String::from("\"");
        for u in s.encode_utf16() {
            let plain = u < 128 && u >= 32 && u != b'"' as u16 && u != b'\\' as u16;
            if plain && !all {
                o.push(u as u8 as char);
            } else {
                o += &format!("\\u{u:04x}");
            }
        }
        o + "\""
    };
    let all = rng.chance(50);
    let swap = rng.chance(50);
    let items: Vec<String> = parts
        .iter()
        .map(|(p, r)| {
            let a = format!("\n\t\"is_public\" :\t{p}");
            let b = format!("\r\n \"regex_def\":   {}", esc(r, all));
            if swap {
                format!("{{{b} ,{a} }}")
            } else {
                format!("{{{a},{b}\n}}")
            }
        })
        .collect();
    // beyond a reader's buffer now and then
    let pad = if rng.chance(15) { " \r\n\t".repeat(rng.range(1000, 20000)) } else { String::new() };
    format!("\n {{ \"parts\" : {pad}[ {} ]\n}}\n\n", items.join(" ,\n"))
}

pub fn c14(ctx: &Ctx) -> i32 {
    ctx.par("fronts", n_cases(ctx), |k, rng| {
        let large = (k % 151 == 50).then(|| giant_case(rng, Opts { raw: k % 2 == 0, ..Default::default() })).flatten();
        let src = match large {
            Some(c) if k % 2 == 0 => Src::Raw(c.def.raw(), None),
            Some(c) => Src::Dec(c.def.rendered()),
            None => source(rng),
        };
        let mut texts: BTreeMap<String, Result<String, String>> = BTreeMap::new();
        let s = Scratch::new();
        let f = s.path("d.json");
        if let Some(t) = src.file() {
            std::fs::write(&f, t).unwrap();
        }
        let fail = |what: String, more: Value| {
            ctx.violation(format!("{what} [{}]", src.json()), json!({"case": k, "definition": src.json(), "what": what, "more": more}));
        };
        let fresh = |n: &str, gs: Option<bool>| -> (PathBuf, Place) {
            let d = s.0.join(n);
            let p = place(&d, &src, gs);
            (d, p)
        };
        let circom = |d: &Path, r: Result<(), String>| -> Result<String, String> {
            r?;
            std::fs::read_to_string(d.join("c.circom")).map_err(|e| e.to_string())
        };
        // the circuit, substrings on
        let (d1, p1) = fresh("lib", Some(true));
        let t = circom(&d1, via_lib(&src, &f, &p1));
        texts.insert("Rust file API".into(), t);
        let (d2, p2) = fresh("cli", Some(true));
        let t = circom(&d2, finish_cli(via_cli(&src, &f, &p2, k % 2 == 0)));
        texts.insert("CLI".into(), t);
        let js = |r: Js| match r {
            Js::Ok(Value::String(t)) => Ok(t),
            Js::Ok(v) => Err(format!("returned {v}")),
            Js::Err(e, _) => Err(e),
            Js::Trap(e) => Err(format!("trap: {e}")),
        };
        match &src {
            Src::Dec(parts) => {
                let mut cfg = config(parts);
                let c = s.path("mem.circom");
                let r = guard(|| zk::gen_circom_from_decomposed_regex(&mut cfg, Some(&c), Some("Tq9base"), Some(true))).ok();
                texts.insert("Rust in-memory API".into(), r.map(|_| std::fs::read_to_string(&c).unwrap_or_default()));
                texts.insert("wasm genFromDecomposed".into(), js(js::call("ZK_WASM", "genFromDecomposed", json!([src.json().to_string(), "Tq9base"]))));
                texts.insert("wasm genCircom".into(), js(js::call("ZK_WASM", "genCircom", json!([src.json(), "Tq9base"]))));
                // another spelling of the same JSON
                let other = reformat(parts, rng);
                texts.insert("wasm genFromDecomposed, other JSON spelling".into(), js(js::call("ZK_WASM", "genFromDecomposed", json!([other, "Tq9base"]))));
                let f2 = s.path("e.json");
                std::fs::write(&f2, &other).unwrap();
                let (d, p) = fresh("spelling", Some(true));
                texts.insert("Rust file API, other JSON spelling".into(), circom(&d, via_lib(&src, &f2, &p)));
            }
            Src::Raw(r, l) => {
                let j = lists_json(&l.clone().unwrap_or_default());
                texts.insert("wasm genFromRaw".into(), js(js::call("ZK_WASM", "genFromRaw", json!([r, j, "Tq9base"]))));
            }
        }
        ctx.eval(texts.len() as u64);
        let base = texts["Rust file API"].clone();
        for (n, t) in &texts {
            ctx.count(n, 1);
            if *t != base {
                let show = |x: &Result<String, String>| match x {
                    Ok(t) => format!("{} bytes, hash {:x}", t.len(), hash(t.as_bytes())),
                    Err(e) => format!("error {e}"),
                };
                // both refusing is agreement
                if t.is_err() && base.is_err() {
                    continue;
                }
                return fail(format!("{n} and the Rust file API differ: {} / {}", show(t), show(&base)), json!({"texts": texts}));
            }
        }
        let base = match base {
            Ok(b) => b,
            Err(_) => {
                ctx.count("not_compiled", 1);
                return;
            }
        };
        ctx.distinct(hash(base.as_bytes()));
        // the tables
        let (t1, t2) = (tree(&d1), tree(&d2));
        if let Some(d) = tree_diff(&t1, &t2) {
            return fail(format!("outputs of the Rust API and the CLI differ: {d}"), json!(null));
        }
        if let Src::Dec(_) = &src {
            match js(js::call("ZK_WASM", "genRegexAndDfa", json!([src.json()]))) {
                Err(e) => return fail(format!("wasm genRegexAndDfa fails: {e}"), json!(null)),
                Ok(t) => {
                    ctx.eval(1);
                    let v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
                    let want = String::from_utf8_lossy(&t1["h/allstr.txt"]).to_string();
                    let want: BTreeSet<(usize, usize, usize)> = match Table::parse(&want) {
                        Ok(t) => t.edges.iter().copied().collect(),
                        Err(_) => return,
                    };
                    if table_of_json(&v) != Some(want) {
                        return fail("the automaton of wasm genRegexAndDfa is not the exported table".into(), json!({"wasm": v}));
                    }
                    let mut i = 0;
                    while let Some(b) = t1.get(&format!("h/substr_{i}.txt")) {
                        let st = match SubTable::parse(&String::from_utf8_lossy(b)) {
                            Ok(s) => s,
                            Err(_) => return,
                        };
                        let want: BTreeSet<(usize, usize)> = st.edges.into_iter().collect();
                        let got: BTreeSet<(usize, usize)> = v["substrings"]["substring_ranges"][i]
                            .as_array()
                            .map(|a| a.iter().filter_map(|x| Some((x[0].as_u64()? as usize, x[1].as_u64()? as usize))).collect())
                            .unwrap_or_default();
                        if want != got {
                            return fail(format!("substring {i} of wasm genRegexAndDfa is not substr_{i}.txt"), json!({"wasm": v}));
                        }
                        i += 1;
                    }
                    if v["substrings"]["substring_ranges"].as_array().map_or(0, |a| a.len()) != i {
                        return fail("wasm genRegexAndDfa and the Halo2 files have different numbers of substrings".into(), json!(null));
                    }
                }
            }
        }
        // options: what is left out does not change the rest
        let default_gs = matches!(src, Src::Raw(..));
        let (doff, poff) = fresh("off", Some(false));
        let off = circom(&doff, via_lib(&src, &f, &poff));
        let (ddef, pdef) = fresh("default", None);
        let def = circom(&ddef, via_lib(&src, &f, &pdef));
        let (dcli, pcli) = fresh("cli-default", None);
        let cli = circom(&dcli, finish_cli(via_cli(&src, &f, &pcli, true)));
        ctx.eval(3);
        let off = match off {
            Ok(t) => t,
            Err(e) => return fail(format!("fails without substrings: {e}"), json!(null)),
        };
        let want_def = if default_gs { &base } else { &off };
        for (n, t) in [("Rust API", &def), ("CLI", &cli)] {
            if t.as_ref() != Ok(want_def) {
                return fail(
                    format!("{n}: leaving out the substring option is not the same as {default_gs}: {}", t.as_ref().err().cloned().unwrap_or_default()),
                    json!(null),
                );
            }
        }
        if tree(&ddef).get("h/allstr.txt") != tree(&doff).get("h/allstr.txt") && src.halo2_ok(None) {
            return fail("the transition table depends on the substring option".into(), json!(null));
        }
        // only one output, or none
        for (hal, cir) in [(true, false), (false, true), (false, false)] {
            for front in ["lib", "cli"] {
                let (d, mut p) = fresh(&format!("only-{hal}-{cir}-{front}"), Some(true));
                if !hal {
                    p.halo2 = None;
                }
                if !cir {
                    p.circom = None;
                    if rng.chance(50) {
                        p.name = None;
                    }
                }
                let r = if front == "lib" { via_lib(&src, &f, &p) } else { finish_cli(via_cli(&src, &f, &p, false)) };
                ctx.eval(1);
                if let Err(e) = r {
                    return fail(format!("{front} fails with halo2 {hal}, circom {cir}: {e}"), json!(null));
                }
                let mut want = t1.clone();
                want.retain(|n, _| n == "h/" || (n.starts_with("h/") && hal) || (n == "c.circom" && cir));
                if let Some(x) = tree_diff(&want, &tree(&d)) {
                    return fail(format!("{front} with halo2 {hal}, circom {cir}: {x}"), json!(null));
                }
            }
        }
        ctx.count("option_combinations", 6);
        // acceptance is the same with and without substrings
        if k % 4 == 0 {
            if let (Ok(mut a), Ok(mut b)) = (Sim::new(&base, "Tq9base"), Sim::new(&off, "Tq9base")) {
                for _ in 0..6 {
                    let n = rng.range(1, 24);
                    let m: Vec<u8> = (0..n).map(|_| if rng.chance(70) { *rng.pick(base.as_bytes()) } else { rng.range(1, 254) as u8 }).collect();
                    if let (Ok(x), Ok(y)) = (a.eval(&m, n), b.eval(&m, n)) {
                        ctx.eval(1);
                        if (x.ok, x.out) != (y.ok, y.out) {
                            return fail(format!("the substring option changes out on \"{}\"", show(&m)), json!(null));
                        }
                        if !y.reveals.is_empty() {
                            return fail("reveal outputs although substrings are off".into(), json!(null));
                        }
                    }
                }
            }
        }
        if k < 12 {
            ctx.sample(json!({"definition": src.json()}));
        }
    });
    ctx.finish(
        "random supported definitions through the Rust file API, the in-memory API, the CLI (short and long options) and every wasm function, JSON in several spellings; circuits, tables and substring lists must be identical; option combinations and defaults; non-trivial: a distinct emitted circuit",
        400,
        &["wasm built with debug assertions and run by node"],
    )
}
