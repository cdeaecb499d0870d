//! C18: success means that every requested output file is there, completely.
use super::circuits::n_cases;
use super::fronts::{place, source, via_cli, via_lib, Place, Src};
use crate::compile::*;
use crate::report::Ctx;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Read, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use zk_regex_compiler as zk;

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(n: i32, handler: usize) -> usize;
}
const FSIZE: i32 = 1;
const NOFILE: i32 = 7;
const SIGXFSZ: i32 = 25;
const INFINITE: u64 = u64::MAX;

/// No file of this process can grow beyond `n` bytes: a write stops short there, the next one fails.
fn limit_files(n: u64) {
    unsafe {
        signal(SIGXFSZ, 1); // ignore
        setrlimit(FSIZE, &[n, INFINITE]);
    }
}

/// `vh child outputs`: compiles once per line of stdin, with the file size limit that the line names.
pub fn child() -> i32 {
    for l in std::io::stdin().lock().lines() {
        let q: Value = match l.ok().and_then(|l| serde_json::from_str(&l).ok()) {
            Some(q) => q,
            None => return 2,
        };
        let s = |k: &str| q[k].as_str().map(String::from);
        let (h, c, n) = (s("halo2"), s("circom"), s("name"));
        let gs = q["gs"].as_bool();
        let (limit, files) = (q["fsize"].as_u64().unwrap_or(INFINITE), q["nofile"].as_u64());
        let file = s("file").unwrap_or_default();
        let r = {
            if limit != INFINITE {
                limit_files(limit);
            }
            if let Some(n) = files {
                unsafe { setrlimit(NOFILE, &[n, 4096]) };
            }
            let r = match q["api"].as_str() {
                Some("memory") => {
                    let p: Vec<(bool, String)> =
                        q["parts"].as_array().unwrap().iter().map(|x| (x[0].as_bool().unwrap(), x[1].as_str().unwrap().to_string())).collect();
                    let mut cfg = config(&p);
                    guard(|| zk::gen_circom_from_decomposed_regex(&mut cfg, c.as_deref(), n.as_deref(), gs))
                }
                Some("raw") => guard(|| zk::gen_from_raw(q["raw"].as_str().unwrap(), s("file").as_deref(), h.as_deref(), c.as_deref(), n.as_deref(), gs)),
                _ => guard(|| zk::gen_from_decomposed(&file, h.as_deref(), c.as_deref(), n.as_deref(), gs)),
            };
            unsafe {
                setrlimit(FSIZE, &[INFINITE, INFINITE]);
                if files.is_some() {
                    setrlimit(NOFILE, &[1024, 4096]);
                }
            }
            r
        };
        let v = match r {
            Out::Ok(()) => json!({"ok": true}),
            Out::Err(e) => json!({"err": e}),
            Out::Panic(e) => json!({"panic": e}),
        };
        println!("{v}");
    }
    0
}

/// The start of a file; None when there is none. Never more than a little beyond what is expected.
fn content(p: &Path, expected: usize) -> Option<Vec<u8>> {
    let f = std::fs::File::open(p).ok()?;
    let mut v = vec![];
    f.take(expected as u64 + 64).read_to_end(&mut v).ok()?;
    Some(v)
}

struct Trial {
    what: String,
    fsize: Option<u64>,
    nofile: Option<u64>,
    /// prepares the fault, given the output paths
    fault: Fault,
    /// the output it hits
    at: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Full,
    Directory,
    Missing,
    ParentIsFile,
    Dangling,
    Loop,
    Stale,
    LinkToStale,
    /// other content of exactly the expected length
    SameLength,
    /// the expected content but for one byte
    OneByteOff,
    /// the first half of the expected content
    Half,
}

fn prepare(d: &Path, outs: &[PathBuf], t: &Trial, big: usize, want: &[u8]) {
    let p = &outs[t.at];
    let parent = p.parent().unwrap();
    match t.fault {
        Fault::None => {}
        Fault::Full => std::os::unix::fs::symlink("/dev/full", p).unwrap(),
        Fault::Directory => std::fs::create_dir(p).unwrap(),
        Fault::Missing => {
            if parent != d {
                std::fs::remove_dir_all(parent).unwrap();
            }
        }
        Fault::ParentIsFile => {
            if parent != d {
                std::fs::remove_dir_all(parent).unwrap();
                std::fs::write(parent, "x").unwrap();
            }
        }
        Fault::Dangling => std::os::unix::fs::symlink(d.join("nowhere/else"), p).unwrap(),
        Fault::Loop => std::os::unix::fs::symlink(p, p).unwrap(),
        Fault::Stale => std::fs::write(p, "stale ".repeat(big)).unwrap(),
        Fault::SameLength => std::fs::write(p, vec![b'#'; want.len()]).unwrap(),
        Fault::OneByteOff => {
            let mut v = want.to_vec();
            let i = v.len() / 2;
            v[i] ^= 1;
            std::fs::write(p, v).unwrap()
        }
        Fault::Half => std::fs::write(p, &want[..want.len() / 2]).unwrap(),
        Fault::LinkToStale => {
            std::fs::write(d.join("target"), "stale ".repeat(big)).unwrap();
            std::os::unix::fs::symlink(d.join("target"), p).unwrap();
        }
    }
}

pub fn c18(ctx: &Ctx) -> i32 {
    ctx.par("outputs", n_cases(ctx), |k, rng| {
        let src = source(rng);
        let gs = *rng.pick(&[None, Some(true), Some(true), Some(false)]);
        // what a call without faults writes
        let s = Scratch::new();
        let file = s.path("in.json");
        if let Some(f) = src.file() {
            std::fs::write(&file, f).unwrap();
        }
        let base = s.0.join("base");
        std::fs::create_dir_all(&base).unwrap();
        if via_lib(&src, &file, &place(&base, &src, gs)).is_err() {
            ctx.count("not_compiled", 1);
            return;
        }
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        want.insert("c.circom".into(), std::fs::read(base.join("c.circom")).unwrap_or_default());
        for e in std::fs::read_dir(base.join("h")).unwrap() {
            let e = e.unwrap();
            want.insert(format!("h/{}", e.file_name().to_str().unwrap()), std::fs::read(e.path()).unwrap());
        }
        // which outputs a definition has is known without looking at them
        let halo2 = src.halo2_ok(gs);
        let n_pub = match &src {
            Src::Dec(p) => p.iter().filter(|x| x.0).count(),
            Src::Raw(..) => 0,
        };
        let mut names = vec!["c.circom".to_string()];
        if halo2 {
            names.push("h/allstr.txt".into());
            if gs.unwrap_or(matches!(src, Src::Raw(..))) {
                names.extend((0..n_pub).map(|i| format!("h/substr_{i}.txt")));
            }
        }
        let d = json!({"definition": src.json(), "gen_substrs": gs});
        for n in &names {
            if want.get(n).map_or(true, Vec::is_empty) {
                ctx.violation(format!("success without the output {n} [{d}]"), json!({"case": k, "definition": d, "missing": n}));
                return;
            }
        }
        let total = want.values().map(Vec::len).max().unwrap();
        let mut trials = vec![];
        for n in &names {
            let l = want[n].len() as u64;
            let mut ks = vec![0, 1, l / 2, l - 1, l, rng.below(l as usize) as u64];
            ks.dedup();
            for x in ks {
                trials.push(Trial { what: format!("no file may exceed {x} bytes"), fsize: Some(x), nofile: None, fault: Fault::None, at: 0 });
            }
        }
        rng.shuffle(&mut trials);
        trials.truncate(14);
        for at in 0..names.len() {
            for f in [Fault::Full, Fault::Directory, Fault::Missing, Fault::ParentIsFile, Fault::Dangling, Fault::Loop, Fault::Stale, Fault::LinkToStale, Fault::SameLength, Fault::OneByteOff, Fault::Half] {
                if matches!(f, Fault::Missing | Fault::ParentIsFile) && at > 1 {
                    continue;
                }
                trials.push(Trial { what: format!("{f:?} at {}", names[at]), fsize: None, nofile: None, fault: f, at });
            }
        }
        for n in [3u64, 4, 5] {
            trials.push(Trial { what: format!("no more than {n} open files"), fsize: None, nofile: Some(n), fault: Fault::None, at: 0 });
        }
        trials.push(Trial { what: "nothing wrong".into(), fsize: None, nofile: None, fault: Fault::None, at: 0 });
        rng.shuffle(&mut trials);
        trials.truncate(38);
        let mut kid = Command::new(std::env::current_exe().unwrap())
            .args(["child", "outputs"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let (mut to, mut from) = (kid.stdin.take().unwrap(), std::io::BufReader::new(kid.stdout.take().unwrap()));
        for (i, t) in trials.iter().enumerate() {
            if !ctx.time_left() && ctx.only_case.is_none() {
                break;
            }
            let dir = s.0.join(format!("t{i}"));
            // the directory of the circom file is one of its own, so that it can be missing
            std::fs::create_dir_all(dir.join("c")).unwrap();
            let mut p: Place = place(&dir, &src, gs);
            p.circom = Some(dir.join("c/c.circom").to_str().unwrap().to_string());
            let memory = matches!(src, Src::Dec(_)) && rng.chance(25);
            if memory {
                p.halo2 = None;
            }
            let outs: Vec<PathBuf> = names.iter().map(|n| dir.join(if n == "c.circom" { "c/c.circom" } else { n })).collect();
            prepare(&dir, &outs, t, total, &want[&names[t.at]]);
            let cli = !memory && t.nofile.is_none() && std::env::var("ZK_CLI").is_ok() && rng.chance(10);
            ctx.eval(1);
            let fail = |w: String| {
                ctx.violation(
                    format!("{w}; {} ({}) [{d}]", t.what, if cli { "CLI" } else if memory { "in-memory API" } else { "file API" }),
                    json!({"case": k, "definition": d, "fault": t.what, "what": w}),
                );
            };
            let r: Result<(), String> = if cli {
                let mut c: Command = via_cli(&src, &file, &p, false);
                if let Some(n) = t.fsize {
                    unsafe {
                        c.pre_exec(move || {
                            limit_files(n);
                            Ok(())
                        });
                    }
                }
                ctx.count("cli_calls", 1);
                match c.output() {
                    Ok(o) if o.status.success() => Ok(()),
                    Ok(o) if o.status.code() == Some(1) => {
                        let e = String::from_utf8_lossy(&o.stderr).to_string();
                        if e.trim().is_empty() || e.contains("panicked") {
                            fail(format!("exit status 1 with {e:?} on stderr"));
                            break;
                        }
                        Err(e)
                    }
                    Ok(o) => {
                        fail(format!("the command line tool ends with {}", o.status));
                        break;
                    }
                    Err(e) => {
                        ctx.count("cli_not_started", 1);
                        let _ = e;
                        continue;
                    }
                }
            } else {
                let parts = match &src {
                    Src::Dec(p) => json!(p),
                    _ => json!(null),
                };
                let (api, raw, f) = match &src {
                    Src::Dec(_) if memory => ("memory", json!(null), json!(null)),
                    Src::Dec(_) => ("file", json!(null), json!(file)),
                    Src::Raw(r, l) => ("raw", json!(r), if l.is_some() { json!(file) } else { json!(null) }),
                };
                let q = json!({"api": api, "raw": raw, "file": f, "parts": parts, "halo2": p.halo2, "circom": p.circom, "name": p.name, "gs": gs,
                               "fsize": t.fsize, "nofile": t.nofile});
                let mut line = String::new();
                if writeln!(to, "{q}").is_err() || to.flush().is_err() || from.read_line(&mut line).is_err() || line.is_empty() {
                    fail("the process that compiles died".into());
                    break;
                }
                let v: Value = serde_json::from_str(&line).unwrap_or_default();
                if let Some(x) = v["panic"].as_str() {
                    fail(format!("panic: {x}"));
                    break;
                }
                match v["err"].as_str() {
                    Some("") => {
                        fail("an error without a message".into());
                        break;
                    }
                    Some(e) => Err(e.to_string()),
                    None => Ok(()),
                }
            };
            let mut expect_ok = true;
            for (n, p) in names.iter().zip(&outs) {
                if memory && n != "c.circom" {
                    continue;
                }
                let w = &want[n];
                if t.fsize.is_some_and(|x| x < w.len() as u64) {
                    expect_ok = false;
                }
                if r.is_err() {
                    continue;
                }
                let got = content(p, w.len());
                if got.as_ref() != Some(w) {
                    fail(match got {
                        None => format!("success, but {n} does not exist"),
                        Some(g) => format!("success, but {n} has {} bytes instead of {} or other content", g.len(), w.len()),
                    });
                    let _ = kid.kill();
                    let _ = kid.wait();
                    return;
                }
            }
            let harmless = matches!(t.fault, Fault::None | Fault::Stale | Fault::LinkToStale | Fault::SameLength | Fault::OneByteOff | Fault::Half) && t.nofile.is_none();
            match &r {
                Ok(()) => ctx.count("complete_outputs", 1),
                Err(e) if harmless && expect_ok => {
                    fail(format!("an error although nothing stands in the way: {e}"));
                    break;
                }
                Err(_) => {
                    ctx.count("faults_reported", 1);
                    ctx.count(&format!("fault_{}", if t.fsize.is_some() { "short_write".into() } else if t.nofile.is_some() { "open_files".into() } else { format!("{:?}", t.fault).to_lowercase() }), 1);
                    ctx.distinct(mix(hash(d.to_string().as_bytes()), hash(t.what.as_bytes())));
                }
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
        drop(to);
        let _ = kid.kill();
        let _ = kid.wait();
        if k < 20 {
            ctx.sample(d);
        }
    });
    ctx.finish(
        "random decomposed and raw definitions, compiled by the file API, the in-memory API and the CLI into directories where one output meets a fault: writes that stop after any byte (file size limit), a full device, a directory or a dangling or circular link in the file's place, a missing or impossible directory, exhausted file handles, longer stale files, earlier files of the same length or with part of the content; after success every requested file is compared with that of an undisturbed call; non-trivial: new (definition, fault) that is reported as an error",
        500,
        &["an undisturbed call writes what it should (C05, C11, C14)"],
    )
}
