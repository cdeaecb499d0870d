#!/usr/bin/env python3
"""mutate.py WORKDIR FILE... [--n N] [--seed S] [--budget B]
Mutation run for the monitors: WORKDIR/repo (a worktree of /repo) gets one small change at a time, WORKDIR/verif (a copy) runs the
checks that concern the file, shortest budget, until one reports a violation. Survivors are printed and appended to WORKDIR/survivors.txt."""
import os, random, re, subprocess, sys, time
W = os.path.abspath(sys.argv[1]); a = sys.argv[2:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
N = int(opt("--n", "1000")); S = int(opt("--seed", "1")); B = opt("--budget", "6"); SKIP = int(opt("--skip", "0")); only = opt("--checks", "")
ORDER = {
 "regex.rs": "C03 C07 C06 C09 C10 C08 C11 C15 C12 C05 C02 C01 C14 C13 C16 A07",
 "circom.rs": "C03 C05 C04 C10 C09 C15 C17 C02 C01 C12 C14 C13 C16 A07",
 "halo2.rs": "C11 C08 C06 C07 C12 C14 C13 C18",
 "lib.rs": "C14 C12 C13 C11 C15 C18", "compiler.rs": "C14 C12 C13 C18", "structs.rs": "C14 C12",
 "extract_substrs.rs": "A01 A02 A03 A06 A07 A05 A08", "padding.rs": "A04 A05 A08",
 "regex_helpers.circom": "C19 C03 C10 C04 C17 C02 C01 C16",
}
def checks(f):
    b = os.path.basename(f)
    if b == "wasm.rs":
        return "C14 C12 C13" if "compiler" in f else "A05 A04 A03 A08"
    if "/common/" in f: return "C16"
    if "decomposed_defs" in f: return "A06 C16 A05"
    return ORDER[b]
RULES = [
 (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" >= ", " > "), (r" <= ", " < "), (r" && ", " || "), (r" \|\| ", " && "),
 (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.\.=", ".."),
 (r"!([a-z_]+[.(])", r"\1"), (r"\bcontinue;", ""), (r"<== ", "<-- "), (r"=== ", "--> "),
 (r"\[i\+1\]", "[i]"), (r"\[i\+2\]", "[i+1]"), (r"\(1 - ([^()]*)\)", r"(\1)"), (r" \* ", " + "), (r" \+ ", " * "), (r" - ", " + "), (r"\band\b\[", "eq["),
 (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.first\(", ".last("), (r"\.last\(", ".first("), (r"\.keys\(", ".values("), (r"is_empty\(\)", "len() == 1"),
 (r"\.trim\(\)", ""), (r"\.unwrap_or\(true\)", ".unwrap_or(false)"), (r"'\\n'", "'\\\\t'"), (r"\.clone\(\)\.or", ".or"), (r"\.rev\(\)", ""), (r"\.sort\w*\([^;]*\);", ";"),
 (r"\.dedup\(\);", ";"), (r"\?;", ".ok();"), (r"\bmut\b", "mut"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b16\b", "17"), (r"\b16\b", "2"),
 (r"\b255\b", "254"), (r"\b8\b", "9"), (r"\b8\b", "7"), (r"(\d+)u8\b", "0u8"), (r"\[i\]", "[i+1]"), (r"from_zero_enabled", "1 - from_zero_enabled"), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"),
 (r"\{idx\}", "0"), (r"\+\?", "*"), (r"\)\+", ")*"), (r"\+(?=[\"\)])", "*"), (r"\*(?=[\"\)])", "+"), (r"A-Z", "A-Y"), (r"0-9", "0-8"), (r"a-z", "b-z"),
]
def mutants(f):
    t = open(f, newline="").read(); end = len(t)
    if f.endswith(".rs"):
        for m in ("\n#[cfg(test)]", "\nmod dfa_test"):
            if m in t: end = min(end, t.index(m))
    pos = 0; out = []
    for line in t[:end].splitlines(True):
        s = line.strip()
        if s and not s.startswith(("//", "#[", "use ", "///", "pragma", "include", "mod ")):
            for p, r in RULES:
                for m in re.finditer(p, line):
                    new = line[:m.start()] + m.expand(r) + line[m.end():]
                    if new != line: out.append((pos, line, new))
            if s.endswith(";") and not s.startswith(("let", "return", "}", "fn", "pub", "signal", "component", "continue", "break")):
                out.append((pos, line, line[:len(line) - len(line.lstrip())] + "\n"))
            if re.match(r"\s*(\} else )?if (?!let).*\{$", line.rstrip("\n")):
                for c in ("true", "false"):
                    out.append((pos, line, re.sub(r"if .* \{$", f"if {c} {{", line.rstrip("\n")) + "\n"))
        pos += len(line)
    return t, list(dict.fromkeys(out))
jobs = []
for f in a:
    t, ms = mutants(f"{W}/repo/{f}")
    jobs += [(f, t, m) for m in ms]
random.Random(S).shuffle(jobs)
print(len(jobs), "mutants", flush=True)
env = dict(os.environ, REPO_DIR=W + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_BUDGET_S=B)
stat = {}
for k, (f, t, (pos, old, new)) in enumerate(jobs[:N]):
    if k < SKIP: continue
    p = f"{W}/repo/{f}"
    open(p, "w", newline="").write(t[:pos] + new + t[pos + len(old):])
    res, inc, t0 = "SURVIVED", [], time.time()
    try:
        for c in (only or checks(f)).split():
            try: r = subprocess.run(["./check", c], cwd=W + "/verif", env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: res = f"timeout in {c}"; break
            if r.returncode == 2: res = "build"; break
            if r.returncode == 1: res = c; break
            if r.returncode: inc.append(c)
    finally:
        open(p, "w", newline="").write(t)
    if inc and res == "SURVIVED": res = "no verdict of " + " ".join(inc)
    stat[res[:8]] = stat.get(res[:8], 0) + 1
    n = t[:pos].count("\n") + 1
    print(f"{k} {res} {f}:{n} {time.time()-t0:.0f}s  {old.strip()}  =>  {new.strip()}", flush=True)
    if res == "SURVIVED" or res.startswith(("no verdict", "timeout")):
        open(f"{W}/survivors.txt", "a").write(f"{res} {f}:{n}\n  - {old.strip()}\n  + {new.strip()}\n")
print(stat)
