#!/usr/bin/env python3
"""mutate.py WORKER SEED OUT CRATE PROPS FILE... -- sensitivity sweep.
Applies random one-line changes to a private copy of /repo, rebuilds a private
copy of the simulator and runs the checks with few runs. Survivors are listed
in OUT for review; nothing in /repo or /verif is touched."""
import os, random, re, subprocess, sys, shutil, json
w, seed, out, crate, props = sys.argv[1:6]
files = sys.argv[6:]
W = f"/tmp/mut/{w}"
rng = random.Random(f"{seed}/{w}")
if not os.path.exists(W + "/repo"):
    os.makedirs(W, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
V = W + "/verif"
if os.path.exists(V):
    for d in ("simcore", crate, "bin"):
        if os.path.exists(f"{V}/{d}"): shutil.rmtree(f"{V}/{d}")
os.makedirs(V, exist_ok=True)
for d in ("simcore", crate, "bin"):
    shutil.copytree(f"/verif/{d}", f"{V}/{d}")
shutil.copy("/verif/known_findings.txt", V)
for root, _, fs in os.walk(f"{V}/{crate}"):
    for f in fs:
        if f.endswith((".toml", ".rs")):
            p = os.path.join(root, f); s = open(p).read()
            if "/repo/" in s: open(p, "w").write(s.replace("/repo/", f"{W}/repo/"))
env = dict(os.environ, SIM_ROOT=V, SIM_RUNS=os.environ.get("MUT_RUNS", "6000"), SIM_SECS="20", SIM_WORKERS="1", VERIF_SEED="1", VERIF_TIER="quick", CARGO_BUILD_JOBS="1")
os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True)
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bif !", "if "), (r"\bif (?!let)", "if !"), (r" && ", " || "), (r" \|\| ", " && "), (r"\?;", ".ok();"), (r"\b0\b", "1"), (r"\b1\b", "0"),
       (r"\.\.=", ".."), (r"\bmin\(", "max("), (r"\bmax\(", "min("), ("swap_remove", "remove"), (r"\.remove\(", ".swap_remove("), ("EMPTY", "DELETED"), ("DELETED", "EMPTY"), ("push_back", "push_front"), ("pop_front", "pop_back"), (r"\+= ", "-= "), (r"-= ", "+= "), ("Some\\(", "None.or(Some("), ("is_some", "is_none"), ("is_none", "is_some"), ("is_empty\\(\\)", "is_empty() == false"), ("DEL", "DEL")]
def cands(f):
    L = open(f"{W}/repo/{f}").read().split("\n"); r = []
    for i, l in enumerate(L):
        t = l.strip()
        if "#[cfg(test)]" in t and "mod " in L[i + 1]: break
        if not t or t.startswith(("//", "#", "use ", "debug_assert", "pub use", "assert", "*", "impl", "where", "fn ", "pub fn", "pub(crate) fn")) : continue
        if "//" in t: continue
        r.append(i)
    return L, r
n = 0
while True:
    f = rng.choice(files)
    L, c = cands(f)
    i = rng.choice(c)
    l = L[i]; t = l.strip()
    if rng.random() < 0.3 and t.endswith(";") and not t.startswith(("let", "return", "break", "continue", "type", "const", "static", "}", ")")):
        new = re.match(r"\s*", l).group() + "();"
    else:
        a, b = rng.choice(OPS)
        ms = list(re.finditer(a, l))
        if not ms or a == b: continue
        m = rng.choice(ms)
        new = l[:m.start()] + b + l[m.end():]
        if b.startswith("None.or"): continue
    if new == l: continue
    n += 1
    M = list(L); M[i] = new
    p = f"{W}/repo/{f}"
    open(p, "w").write("\n".join(M))
    try:
        r = subprocess.run(["bash", V + "/bin/build.sh", crate], env=env, capture_output=True, text=True, timeout=600)
        if r.returncode or "recorded copy" in r.stdout + r.stderr: continue
        res = None
        for q in props.split(","):
            try:
                r = subprocess.run([f"{V}/target/release/{crate}", "check", q], env=env, capture_output=True, text=True, timeout=240)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "hang"
            if rc != 0:
                m = re.search(r"^\[.*$", r.stdout, re.M)
                res = f"{q}:{rc} {m.group()[:90] if m else r.stdout[-90:]!r}"; break
        with open(out, "a") as o:
            o.write(f"{'KILLED ' + res if res else 'SURVIVED'} {f}:{i+1}\n   - {l.strip()}\n   + {new.strip()}\n")
    finally:
        open(p, "w").write("\n".join(L))
