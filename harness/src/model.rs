//! Reference semantics of a decomposed (or raw) definition: one automaton per part, run as a left-to-right
//! scan. Nothing here looks at the code under test; the parts' automata come from regex-automata's own API.

use regex_automata::dfa::{dense::DFA, Automaton, StartKind};
use regex_automata::{Anchored, Input, MatchKind};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

pub const NONE: u16 = u16::MAX;

/// Minimal trimmed DFA of one part.
#[derive(Clone)]
pub struct PDfa {
    pub d: Vec<[u16; 256]>,
    pub acc: Vec<bool>,
    pub depth: Vec<u32>,
}
impl PDfa {
    pub fn build(pat: &str) -> Result<PDfa, String> {
        thread_local! {
            static CACHE: std::cell::RefCell<HashMap<String, Result<PDfa, String>>> = Default::default();
        }
        if let Some(r) = CACHE.with(|c| c.borrow().get(pat).cloned()) {
            return r;
        }
        let r = PDfa::build_new(pat);
        CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 150 {
                c.clear();
            }
            c.insert(pat.to_string(), r.clone());
        });
        r
    }
    fn build_new(pat: &str) -> Result<PDfa, String> {
        let dfa = DFA::builder()
            .thompson(regex_automata::nfa::thompson::Config::new().nfa_size_limit(Some(8 << 20)))
            .configure(
                DFA::config()
                    .minimize(true)
                    .start_kind(StartKind::Anchored)
                    .match_kind(MatchKind::All)
                    .dfa_size_limit(Some(600 << 10))
                    .determinize_size_limit(Some(1 << 20)),
            )
            .build(&format!(r"\A(?:{pat})\z"))
            .map_err(|e| format!("{e}"))?;
        let start = dfa
            .start_state_forward(&Input::new("").anchored(Anchored::Yes))
            .map_err(|e| format!("{e}"))?;
        let mut ids = HashMap::from([(start, 0usize)]);
        let mut order = vec![start];
        let mut d: Vec<Vec<usize>> = vec![];
        let mut acc = vec![];
        let mut i = 0;
        while i < order.len() {
            let s = order[i];
            i += 1;
            acc.push(dfa.is_match_state(dfa.next_eoi_state(s)));
            let mut row = vec![usize::MAX; 256];
            for b in 0..256usize {
                let t = dfa.next_state(s, b as u8);
                if dfa.is_dead_state(t) || dfa.is_quit_state(t) {
                    continue;
                }
                let n = ids.len();
                let id = *ids.entry(t).or_insert(n);
                if id == n {
                    order.push(t);
                }
                row[b] = id;
            }
            d.push(row);
        }
        // trim to states that reach acceptance
        let n = d.len();
        let mut live = acc.clone();
        loop {
            let mut ch = false;
            for s in 0..n {
                if !live[s] && d[s].iter().any(|&t| t != usize::MAX && live[t]) {
                    live[s] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        if !live[0] {
            return Err("empty language".into());
        }
        if n > 4000 {
            return Err("too large".into());
        }
        let mut map = vec![NONE; n];
        let mut k = 0;
        for s in 0..n {
            if live[s] {
                map[s] = k;
                k += 1;
            }
        }
        let mut out = PDfa { d: vec![], acc: vec![], depth: vec![] };
        for s in 0..n {
            if !live[s] {
                continue;
            }
            let mut row = [NONE; 256];
            for b in 0..256 {
                if d[s][b] != usize::MAX {
                    row[b] = map[d[s][b]];
                }
            }
            out.d.push(row);
            out.acc.push(acc[s]);
        }
        out.set_depth();
        Ok(out)
    }
    fn set_depth(&mut self) {
        let n = self.d.len();
        self.depth = vec![u32::MAX; n];
        self.depth[0] = 0;
        let mut q = VecDeque::from([0usize]);
        while let Some(s) = q.pop_front() {
            for &t in &self.d[s] {
                if t != NONE && self.depth[t as usize] == u32::MAX {
                    self.depth[t as usize] = self.depth[s] + 1;
                    q.push_back(t as usize);
                }
            }
        }
    }
    pub fn start_has_incoming(&self) -> bool {
        self.d.iter().any(|r| r.iter().any(|&t| t == 0))
    }
    pub fn is_leaf(&self, s: usize) -> bool {
        self.d[s].iter().all(|&t| t == NONE)
    }
    /// The prefix group of a begin anchor: `X` or the sentinel.
    fn begin_alt(x: &str) -> Result<PDfa, String> {
        let mut p = PDfa::build(&format!("(?:{x})?"))?;
        if p.start_has_incoming() {
            return Err("anchor alternative loops to the start".into());
        }
        p.acc[0] = false;
        if !p.acc.iter().any(|&a| a) {
            return Err("anchor alternative matches nothing".into());
        }
        let leaf = (0..p.d.len()).find(|&s| p.acc[s] && p.is_leaf(s));
        let f = match leaf {
            Some(f) => f,
            None => {
                p.d.push([NONE; 256]);
                p.acc.push(true);
                p.d.len() - 1
            }
        };
        p.d[0][255] = f as u16;
        p.set_depth();
        Ok(p)
    }
    fn begin() -> PDfa {
        let mut r = [NONE; 256];
        r[255] = 1;
        PDfa { d: vec![r, [NONE; 256]], acc: vec![false, true], depth: vec![0, 1] }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Begin {
    No,
    /// `^`
    Start,
    /// `(X|^)` / `(^|X)`; the exact text of the group is kept
    Alt { x: String, text: String },
}

/// A definition as the generator builds it (the anchors are known by construction, not parsed).
#[derive(Clone, Debug)]
pub struct Def {
    pub begin: Begin,
    /// (is_public, text without anchors)
    pub parts: Vec<(bool, String)>,
    pub end: bool,
}
impl Def {
    pub fn rendered(&self) -> Vec<(bool, String)> {
        let mut v = self.parts.clone();
        match &self.begin {
            Begin::No => {}
            Begin::Start => v[0].1 = format!("^{}", v[0].1),
            Begin::Alt { text, .. } => v[0].1 = format!("{text}{}", v[0].1),
        }
        if self.end {
            v.last_mut().unwrap().1.push('$');
        }
        v
    }
    /// Whether the definition is bound to a place: an X that may be empty is everywhere.
    pub fn anchored(&self) -> bool {
        match &self.begin {
            Begin::No => false,
            Begin::Start => true,
            Begin::Alt { x, .. } => !PDfa::build(x).is_ok_and(|d| d.acc[0]),
        }
    }
    pub fn json(&self) -> Value {
        json!({"parts": self.rendered().iter().map(|(p, r)| json!({"is_public": p, "regex_def": r})).collect::<Vec<_>>()})
    }
    pub fn json_string(&self) -> String {
        self.json().to_string()
    }
    pub fn n_public(&self) -> usize {
        self.parts.iter().filter(|p| p.0).count()
    }
    /// One pattern for an unanchored search with an independent engine.
    pub fn oracle_pattern(&self) -> String {
        let mut s = match &self.begin {
            Begin::No => String::new(),
            Begin::Start => r"\A".to_string(),
            Begin::Alt { x, .. } => format!(r"(?:(?:{x})|\A)"),
        };
        for (_, p) in &self.parts {
            s += &format!("(?:{p})");
        }
        if self.end {
            s += r"\z";
        }
        s
    }
    /// The same language as one raw regex (no begin anchor).
    pub fn raw(&self) -> String {
        let mut s: String = self.parts.iter().map(|p| p.1.as_str()).collect();
        if self.end {
            s.push('$');
        }
        s
    }
    /// Parses the handful of bundled shapes.
    pub fn from_json(v: &Value) -> Option<Def> {
        let mut parts: Vec<(bool, String)> = vec![];
        for p in v["parts"].as_array()? {
            parts.push((p["is_public"].as_bool()?, p["regex_def"].as_str()?.to_string()));
        }
        let mut begin = Begin::No;
        let first = parts[0].1.clone();
        if let Some(r) = first.strip_prefix("^") {
            begin = Begin::Start;
            parts[0].1 = r.to_string();
        } else if first.starts_with('(') {
            if let Some(e) = first.find(')') {
                let g = first[1..e].strip_prefix("?:").unwrap_or(&first[1..e]);
                let x = g.strip_suffix("|^").or_else(|| g.strip_prefix("^|"));
                if let Some(x) = x {
                    begin = Begin::Alt { x: x.to_string(), text: first[..=e].to_string() };
                    parts[0].1 = first[e + 1..].to_string();
                }
            }
        }
        let last = parts.last_mut().unwrap();
        let mut end = false;
        if last.1.ends_with('$') {
            let bs = last.1[..last.1.len() - 1].bytes().rev().take_while(|&b| b == b'\\').count();
            if bs % 2 == 0 {
                end = true;
                last.1.pop();
            }
        }
        Some(Def { begin, parts, end })
    }
}

pub struct Model {
    /// part 0 is the anchor group when `anchored`
    pub parts: Vec<PDfa>,
    pub anchored: bool,
    pub end: bool,
    pub public: Vec<Option<usize>>,
    pub n_public: usize,
    /// merged configurations, 0 is the root
    pub cfg: Vec<(usize, usize)>,
    pub t: Vec<[u16; 256]>,
    pub acc: Vec<bool>,
    /// the configuration's part can begin here (index by part)
    pub begins: Vec<BTreeSet<usize>>,
    pub ends: Vec<BTreeSet<usize>>,
    pub dist: Vec<u32>,
    /// some byte fits both the current part and the next one: the next part takes it
    pub ambiguous: bool,
}

pub struct Scan {
    /// acceptance reached at least once
    pub hit: bool,
    pub out: bool,
    /// reveal arrays if out were 1
    pub reveals: Vec<Vec<u8>>,
    pub runs: usize,
    pub completed: usize,
    pub abandoned: usize,
    pub visited: Vec<u16>,
}

impl Model {
    /// Only definitions without ambiguous part boundaries.
    pub fn build(def: &Def) -> Result<Model, String> {
        let m = Model::build_any(def)?;
        if m.ambiguous {
            return Err("ambiguous part boundary".into());
        }
        Ok(m)
    }
    pub fn build_any(def: &Def) -> Result<Model, String> {
        let mut parts = vec![];
        let mut public = vec![];
        match &def.begin {
            Begin::No => {}
            Begin::Start => {
                parts.push(PDfa::begin());
                public.push(None);
            }
            Begin::Alt { x, .. } => {
                parts.push(if def.anchored() { PDfa::begin_alt(x)? } else { PDfa::build(x)? });
                public.push(None);
            }
        }
        let anchored = def.anchored();
        let mut np = 0;
        for (p, text) in &def.parts {
            parts.push(PDfa::build(text)?);
            public.push(if *p {
                np += 1;
                Some(np - 1)
            } else {
                None
            });
        }
        Model::assemble(parts, public, np, anchored, def.end)
    }

    fn assemble(parts: Vec<PDfa>, public: Vec<Option<usize>>, n_public: usize, anchored: bool, end: bool) -> Result<Model, String> {
        let n = parts.len();
        if parts[0].start_has_incoming() {
            return Err("unsupported: transition back to the initial state".into());
        }
        // accepting configurations of every prefix of the part list
        let mut accs: Vec<Vec<(usize, usize)>> = vec![];
        for k in 0..n {
            let p = &parts[k];
            let mut a: Vec<(usize, usize)> = (0..p.d.len()).filter(|&q| p.acc[q] && (q != 0 || k == 0)).map(|q| (k, q)).collect();
            if k > 0 && p.acc[0] {
                a.extend(accs[k - 1].iter().copied());
            }
            if k > 0 && p.start_has_incoming() {
                // a loop to this part's start re-enters the previous accepting state: only representable
                // when that state is unique, final and the last one numbered
                let prev = &accs[k - 1];
                if prev.len() != 1 {
                    return Err("unsupported: loop to the start of a part after several accepting states".into());
                }
                let (j, f) = prev[0];
                for m in j + 1..k {
                    if parts[m].d.len() > 1 || !parts[m].is_leaf(0) {
                        return Err("unsupported: loop to the start of a part".into());
                    }
                }
                if !parts[j].is_leaf(f) || f == 0 {
                    return Err("unsupported: loop to the start of a part after a non-final state".into());
                }
                let dm = parts[j].depth[f];
                if (0..parts[j].d.len()).any(|q| q != f && parts[j].depth[q] >= dm) {
                    return Err("unsupported: loop to the start of a part after a state that is not the last".into());
                }
            }
            accs.push(a);
        }
        if accs[n - 1].len() != 1 {
            return Err(format!("unsupported: {} accepting states", accs[n - 1].len()));
        }
        if accs[n - 1][0] == (0, 0) {
            return Err("unsupported: matches the empty string".into());
        }
        // explore configurations
        let mut ambiguous = false;
        let mut ids: HashMap<(usize, usize), u16> = HashMap::from([((0, 0), 0)]);
        let mut cfg = vec![(0usize, 0usize)];
        let mut t: Vec<[u16; 256]> = vec![];
        let mut i = 0;
        while i < cfg.len() {
            let (k, q) = cfg[i];
            i += 1;
            let mut row = [NONE; 256];
            for b in 0..256usize {
                let mut found: Option<(usize, usize)> = None;
                let (mut kk, mut qq) = (k, q);
                loop {
                    let x = parts[kk].d[qq][b];
                    if x != NONE {
                        ambiguous |= found.is_some();
                        found = Some((kk, x as usize));
                    }
                    if parts[kk].acc[qq] && kk + 1 < n {
                        kk += 1;
                        qq = 0;
                    } else {
                        break;
                    }
                }
                if let Some(c) = found {
                    let nx = ids.len() as u16;
                    let id = *ids.entry(c).or_insert(nx);
                    if id == nx {
                        cfg.push(c);
                        if cfg.len() > 3000 {
                            return Err("too large".into());
                        }
                    }
                    row[b] = id;
                }
            }
            t.push(row);
        }
        let nullable: Vec<bool> = (0..=n).map(|k| (k..n).all(|m| parts[m].acc[0])).collect();
        let acc: Vec<bool> = cfg.iter().map(|&(k, q)| parts[k].acc[q] && nullable[k + 1]).collect();
        // where each part can begin and end
        let mut begins = vec![BTreeSet::new(); n];
        let mut ends = vec![BTreeSet::new(); n];
        for k in 0..n {
            let b: BTreeSet<usize> = if k == 0 { BTreeSet::from([0]) } else { ends[k - 1].clone() };
            let mut e: BTreeSet<usize> =
                cfg.iter().enumerate().filter(|(_, c)| c.0 == k && parts[k].acc[c.1] && !(k == 0 && c.1 == 0)).map(|(i, _)| i).collect();
            if parts[k].acc[0] {
                e.extend(b.iter().copied());
            }
            begins[k] = b;
            ends[k] = e;
        }
        let m = cfg.len();
        let mut dist = vec![u32::MAX; m];
        for s in 0..m {
            if acc[s] {
                dist[s] = 0;
            }
        }
        loop {
            let mut ch = false;
            for s in 0..m {
                for &x in &t[s] {
                    if x != NONE && dist[x as usize] != u32::MAX && dist[x as usize] + 1 < dist[s] {
                        dist[s] = dist[x as usize] + 1;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        if dist.iter().any(|&d| d == u32::MAX) {
            return Err("unsupported: dead configuration".into());
        }
        Ok(Model { parts, anchored, end, public, n_public, cfg, t, acc, begins, ends, dist, ambiguous })
    }

    /// Transition on a message byte in a circuit: the zero byte never matches.
    #[inline]
    pub fn step(&self, s: u16, b: u8) -> u16 {
        if b == 0 {
            NONE
        } else {
            self.t[s as usize][b as usize]
        }
    }

    pub fn scan(&self, msg: &[u8]) -> Scan {
        let len = msg.len();
        let content = len - msg.iter().rev().take_while(|&&b| b == 0).count();
        let mut cur = 0u16;
        let mut run = 0usize;
        let mut trace: Vec<(usize, u16)> = Vec::with_capacity(len + 1); // run id (0: none), state after
        let mut last_acc: BTreeMap<usize, usize> = BTreeMap::new();
        let mut abandoned = 0;
        for i in 0..=len {
            let b = if i == 0 { 255 } else { msg[i - 1] };
            let mut nx = if cur != 0 { self.step(cur, b) } else { NONE };
            if nx == NONE {
                if cur != 0 && !last_acc.contains_key(&run) {
                    abandoned += 1;
                }
                nx = self.step(0, b);
                if nx != NONE {
                    run += 1;
                }
            }
            if nx == NONE {
                cur = 0;
                trace.push((0, 0));
            } else {
                cur = nx;
                trace.push((run, nx));
                // with an end anchor only a run that accepts at the end of the content completes
                if self.acc[nx as usize] && (!self.end || i == content) {
                    last_acc.insert(run, i);
                }
            }
        }
        let hit = !last_acc.is_empty();
        let out = hit;
        let mut reveals = vec![vec![0u8; len]; self.n_public];
        for i in 1..=len {
            let (r, s) = trace[i];
            if r == 0 {
                continue;
            }
            if let (Some(&la), Some(p)) = (last_acc.get(&r), self.public[self.cfg[s as usize].0]) {
                if i <= la {
                    reveals[p][i - 1] = msg[i - 1];
                }
            }
        }
        Scan { hit, out, reveals, runs: run, completed: last_acc.len(), abandoned, visited: trace.iter().map(|t| t.1).collect() }
    }

    pub fn n_edges(&self) -> usize {
        self.t.iter().map(|r| r.iter().filter(|&&x| x != NONE).count()).sum()
    }
}
