//! Calls into the code under test, with panics caught and all files kept in a scratch directory.
use crate::circom::{felt, Circuit, Program};
use crate::model::Def;
use crate::report::in_call;
use crate::util::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use zk_regex_compiler as zk;

static SEQ: AtomicU64 = AtomicU64::new(0);
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join("vh-scratch"));
        let d = base.join(format!("{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, Clone)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn ok(self) -> Result<T, String> {
        match self {
            Out::Ok(t) => Ok(t),
            Out::Err(e) => Err(format!("error: {e}")),
            Out::Panic(e) => Err(format!("panic: {e}")),
        }
    }
}
pub fn guard<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match catch(f) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(p) => Out::Panic(p),
    }
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Compiled {
    pub circom: String,
    pub allstr: String,
    pub substrs: Vec<String>,
}

fn collect(s: &Scratch) -> Compiled {
    let mut c = Compiled::default();
    c.circom = std::fs::read_to_string(s.path("c.circom")).unwrap_or_default();
    c.allstr = std::fs::read_to_string(s.path("h/allstr.txt")).unwrap_or_default();
    let mut i = 0;
    while let Ok(t) = std::fs::read_to_string(s.path(&format!("h/substr_{i}.txt"))) {
        c.substrs.push(t);
        i += 1;
    }
    c
}

/// Both outputs of a decomposed definition through the file API.
pub fn decomposed(json: &str, name: &str, gs: Option<bool>, halo2: bool) -> Out<Compiled> {
    let _c = in_call(json);
    let s = Scratch::new();
    std::fs::write(s.path("d.json"), json).unwrap();
    std::fs::create_dir_all(s.path("h")).unwrap();
    let (h, c, d) = (s.path("h"), s.path("c.circom"), s.path("d.json"));
    match guard(|| zk::gen_from_decomposed(&d, if halo2 { Some(&h) } else { None }, Some(&c), Some(name), gs)) {
        Out::Ok(()) => Out::Ok(collect(&s)),
        Out::Err(e) => Out::Err(e),
        Out::Panic(e) => Out::Panic(e),
    }
}
/// Only the circuit, from the in-memory definition.
pub fn decomposed_mem(def: &Def, name: &str, gs: Option<bool>) -> Out<String> {
    let s = Scratch::new();
    let c = s.path("c.circom");
    let mut cfg = config(&def.rendered());
    match guard(|| zk::gen_circom_from_decomposed_regex(&mut cfg, Some(&c), Some(name), gs)) {
        Out::Ok(()) => Out::Ok(std::fs::read_to_string(&c).unwrap_or_default()),
        Out::Err(e) => Out::Err(e),
        Out::Panic(e) => Out::Panic(e),
    }
}
pub fn config(parts: &[(bool, String)]) -> zk::DecomposedRegexConfig {
    zk::DecomposedRegexConfig {
        parts: parts.iter().map(|(p, r)| zk::RegexPartConfig { is_public: *p, regex_def: r.clone() }).collect(),
    }
}
pub fn raw(regex: &str, substrs: Option<&str>, name: &str, gs: Option<bool>, halo2: bool) -> Out<Compiled> {
    let _c = in_call(regex);
    let s = Scratch::new();
    if let Some(j) = substrs {
        std::fs::write(s.path("s.json"), j).unwrap();
    }
    std::fs::create_dir_all(s.path("h")).unwrap();
    let (h, c, j) = (s.path("h"), s.path("c.circom"), s.path("s.json"));
    match guard(|| zk::gen_from_raw(regex, substrs.map(|_| j.as_str()), if halo2 { Some(&h) } else { None }, Some(&c), Some(name), gs)) {
        Out::Ok(()) => Out::Ok(collect(&s)),
        Out::Err(e) => Out::Err(e),
        Out::Panic(e) => Out::Panic(e),
    }
}
/// Only the transition table of a raw regex (no substring files).
pub fn raw_table(regex: &str) -> Out<String> {
    let s = Scratch::new();
    std::fs::create_dir_all(s.path("h")).unwrap();
    let h = s.path("h");
    match guard(|| zk::gen_from_raw(regex, None, Some(&h), None, None, Some(false))) {
        Out::Ok(()) => Out::Ok(collect(&s).allstr),
        Out::Err(e) => Out::Err(e),
        Out::Panic(e) => Out::Panic(e),
    }
}

// ---------------------------------------------------------------- tables

#[derive(Clone, Debug)]
pub struct Table {
    pub start: usize,
    pub accept: usize,
    pub max: usize,
    pub edges: Vec<(usize, usize, usize)>,
    pub rows: Vec<[u32; 256]>,
}
pub const NO: u32 = u32::MAX;
impl Table {
    pub fn parse(s: &str) -> Result<Table, String> {
        let mut it = s.lines();
        let mut head = || -> Result<usize, String> {
            let l = it.next().ok_or("missing header line")?;
            l.trim().parse().map_err(|_| format!("bad header line {l:?}"))
        };
        let (start, accept, max) = (head()?, head()?, head()?);
        let mut edges = vec![];
        for l in it {
            let v: Vec<usize> =
                l.split(' ').map(|x| x.parse::<usize>().map_err(|_| format!("bad line {l:?}"))).collect::<Result<_, _>>()?;
            if v.len() != 3 {
                return Err(format!("bad line {l:?}"));
            }
            edges.push((v[0], v[1], v[2]));
        }
        let n = edges.iter().map(|e| e.0.max(e.1)).max().unwrap_or(0).max(max).max(accept).max(start) + 1;
        let mut rows = vec![[NO; 256]; n];
        for &(a, b, c) in &edges {
            if c > 255 {
                return Err(format!("byte {c} out of range"));
            }
            if rows[a][c] != NO && rows[a][c] != b as u32 {
                return Err(format!("state {a} has two transitions on byte {c}"));
            }
            rows[a][c] = b as u32;
        }
        Ok(Table { start, accept, max, edges, rows })
    }
}
#[derive(Clone, Debug)]
pub struct SubTable {
    pub starts: Vec<usize>,
    pub ends: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
}
impl SubTable {
    pub fn parse(s: &str) -> Result<SubTable, String> {
        let mut it = s.lines();
        let mut list = || -> Result<Vec<usize>, String> {
            let l = it.next().ok_or("missing line")?;
            l.split_whitespace().map(|x| x.parse().map_err(|_| format!("bad line {l:?}"))).collect()
        };
        let starts = list()?;
        let ends = list()?;
        let mut edges = vec![];
        for l in it {
            let v: Vec<usize> =
                l.split(' ').map(|x| x.parse::<usize>().map_err(|_| format!("bad line {l:?}"))).collect::<Result<_, _>>()?;
            if v.len() != 2 {
                return Err(format!("bad line {l:?}"));
            }
            edges.push((v[0], v[1]));
        }
        Ok(SubTable { starts, ends, edges })
    }
}

// ---------------------------------------------------------------- circuits

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into()))
}
fn circomlib(n: &str) -> &'static str {
    match n {
        "comparators" => include_str!("../circomlib/comparators.circom"),
        "bitify" => include_str!("../circomlib/bitify.circom"),
        _ => include_str!("../circomlib/gates.circom"),
    }
}

thread_local! {
    static BASE: std::cell::RefCell<Option<Result<Program, String>>> = std::cell::RefCell::new(None);
}
pub fn base() -> Result<Program, String> {
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            *b = Some((|| {
                let mut p = Program::default();
                for n in ["comparators", "bitify", "gates"] {
                    p.add_source(circomlib(n), true, false)?;
                }
                let h = repo().join("packages/circom/circuits/regex_helpers.circom");
                let src = std::fs::read_to_string(h).map_err(|e| e.to_string())?;
                p.add_source(&src, false, false).map_err(|e| format!("regex_helpers.circom: {e}"))?;
                Ok(p)
            })());
        }
        b.as_ref().unwrap().clone()
    })
}

pub struct Sim {
    pub prog: Program,
    pub name: String,
    circs: HashMap<usize, Circuit>,
    w: Vec<u64>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Eval {
    pub ok: bool,
    pub out: u64,
    pub reveals: Vec<Vec<u64>>,
}
impl Sim {
    pub fn new(src: &str, name: &str) -> Result<Sim, String> {
        let mut prog = base()?;
        prog.add_source(src, false, true)?;
        Ok(Sim { prog, name: name.into(), circs: HashMap::new(), w: vec![] })
    }
    /// A committed circuit with everything it includes (each file once).
    pub fn from_file(path: &Path, name: &str) -> Result<Sim, String> {
        let mut prog = base()?;
        let helpers = repo().join("packages/circom/circuits/regex_helpers.circom");
        let mut seen = std::collections::HashSet::from([helpers.canonicalize().map_err(|e| e.to_string())?]);
        let mut todo = vec![path.to_path_buf()];
        while let Some(f) = todo.pop() {
            let c = f.canonicalize().map_err(|e| format!("{}: {e}", f.display()))?;
            if !seen.insert(c) {
                continue;
            }
            let src = std::fs::read_to_string(&f).map_err(|e| format!("{}: {e}", f.display()))?;
            let before = prog.includes.len();
            prog.add_source(&src, false, true).map_err(|e| format!("{}: {e}", f.display()))?;
            for i in prog.includes[before..].to_vec() {
                if i.starts_with("circomlib/") {
                    continue;
                }
                let t = match i.strip_prefix("@zk-email/zk-regex-circom/") {
                    Some(r) => repo().join("packages/circom").join(r),
                    None => f.parent().unwrap().join(&i),
                };
                if !t.exists() {
                    return Err(format!("{} includes {i}, which does not exist", f.display()));
                }
                todo.push(t);
            }
        }
        if prog.template_arity(name) != Some(1) {
            return Err(format!("{}: no template {name} with one parameter", path.display()));
        }
        Ok(Sim { prog, name: name.into(), circs: HashMap::new(), w: vec![] })
    }
    pub fn circuit(&mut self, n: usize) -> Result<&Circuit, String> {
        if !self.circs.contains_key(&n) {
            if self.circs.len() > 6 {
                self.circs.clear();
            }
            let c = self.prog.instantiate(&self.name, &[n as u64]).map_err(|e| format!("msg_bytes = {n}: {e}"))?;
            if c.inputs.len() != 1 || c.inputs[0].1 != vec![n] {
                return Err(format!("unexpected inputs {:?}", c.inputs));
            }
            self.circs.insert(n, c);
        }
        Ok(&self.circs[&n])
    }
    pub fn eval_felts(&mut self, input: &[u64], over: &[(u32, u64)]) -> Result<Eval, String> {
        let n = input.len();
        self.circuit(n)?;
        let c = &self.circs[&n];
        let ok = c.run(input, over, &mut self.w);
        let out = c.output("out", &self.w).ok_or("no output out")?;
        let mut reveals = vec![];
        let mut k = 0;
        while let Some(r) = c.output(&format!("reveal{k}"), &self.w) {
            reveals.push(r);
            k += 1;
        }
        Ok(Eval { ok, out: out[0], reveals })
    }
    pub fn eval(&mut self, msg: &[u8], n: usize) -> Result<Eval, String> {
        let mut v: Vec<u64> = msg.iter().map(|&b| felt(b as i64)).collect();
        v.resize(n.max(msg.len()), 0);
        self.eval_felts(&v, &[])
    }
}

/// Sizes the message is evaluated at: few distinct ones, so instantiated circuits are reused.
pub fn round_size(len: usize, rng: &mut Rng) -> usize {
    if rng.chance(5) {
        return len.max(1);
    }
    let sizes = [6, 12, 24, 48, 96, 160, 256, 320, 400];
    *sizes.iter().find(|&&s| s >= len).unwrap_or(&len)
}
pub fn exists(p: &Path) -> bool {
    p.exists()
}
