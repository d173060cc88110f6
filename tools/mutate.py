#!/usr/bin/env python3
"""Mutation study of the checks (development tool, not part of any check).

Works on scratch copies only: mutate.py WORKDIR OUT.jsonl PART/PARTS [FILTER] mutates a copy of
/repo/src line by line, rebuilds a copy of the harness against it and runs every check (but C22) with a
fraction of its cases until one reports a violation. Survivors are reviewed by hand.
"""
import json, os, random, re, shutil, subprocess, sys
W, OUT, part = sys.argv[1], sys.argv[2], sys.argv[3]
only = sys.argv[4] if len(sys.argv) > 4 else ""
pi, pn = map(int, part.split("/"))
FILES = ["src/decoder.rs", "src/decoder/lossless.rs", "src/huffman.rs", "src/idct.rs", "src/parser.rs",
         "src/upsampler.rs", "src/worker/immediate.rs", "src/worker/mod.rs", "src/worker/multithreaded.rs",
         "src/worker/rayon.rs", "src/arch/ssse3.rs", "src/marker.rs", "src/lib.rs", "src/arch/mod.rs"]
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", JD_VERIF=W + "/v", JD_THREADS="3",
           JD_MULT=os.environ.get("JD_MULT", "0.1"), VERIF_SEED="1")
ORDER = "C05 C06 C24 C23 C11 C10 C08 C13 C04 C27 C07 C09 C25 C26 C17 C18 C12 C03 C14 C15 C16 C02 C19 C20 C01 C21 C28".split()

def setup():
    if os.path.exists(W + "/repo"):
        return
    os.makedirs(W + "/v")
    shutil.copy("/verif/known_findings.json", W + "/v/")
    os.makedirs(W + "/repo")
    for d in ("src", "benches", "examples", "tests"):
        shutil.copytree("/repo/" + d, W + "/repo/" + d)
    shutil.copy("/repo/Cargo.toml", W + "/repo/")
    shutil.copytree("/verif/harness", W + "/harness", ignore=shutil.ignore_patterns("target*"))
    for r, _, fs in os.walk(W + "/harness"):
        for f in fs:
            if f == "Cargo.toml":
                p = r + "/" + f
                s = open(p).read().replace('"/repo', f'"{W}/repo')
                open(p, "w").write(s)

def mutants():
    out = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        intest = False
        for n, l in enumerate(lines):
            st = l.strip()
            if st.startswith("#[test]"):
                intest = True
            if intest:
                if l == "}":
                    intest = False
                continue
            if not st or st.startswith(("//", "#", "use ", "pub use", "extern", "mod ", "assert", "debug_assert", "fn ", "pub fn", "pub unsafe fn", "impl", "trait", "struct", "enum")):
                continue
            code = re.sub(r'"(\\.|[^"\\])*"', lambda m: m.group(0).replace("=", "\1").replace("0", "\2"), l)
            def add(new, kind):
                if new != l:
                    out.append((f, n, l, new, kind))
            body = l.split("//")[0]
            pairs = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
                     (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" % ", " / "),
                     (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" | ", " & "), ("..=", ".."), (" += ", " -= "), (" -= ", " += "),
                     (" |= ", " &= "), (" <<= ", " >>= "), (".max()", ".min()"), (".min(", ".max("), (".any(", ".all("), ("true", "false"), ("false", "true"),
                     (".width", ".height"), (".height", ".width"), ("horizontal_", "vertical_"), ("vertical_", "horizontal_"),
                     ("adds_", "add_"), ("subs_", "sub_"), ("dc_", "ac_"), ("ac_", "dc_"), ("x_", "y_"), ("_high", "_low"), ("_low", "_high")]
            for a, b in pairs:
                for m in re.finditer(re.escape(a), body):
                    add(l[:m.start()] + b + l[m.end():], f"{a.strip()}->{b.strip()}")
            for m in re.finditer(r"(?<![\w.])(\d+|0x[0-9A-Fa-f]+)(?![\w.])", body):
                if '"' in body[:m.start()] and body[:m.start()].count('"') % 2:
                    continue
                v = int(m.group(1), 0)
                add(l[:m.start()] + str(v + 1) + l[m.end():], "n+1")
                if v > 0:
                    add(l[:m.start()] + str(v - 1) + l[m.end():], "n-1")
            m = re.match(r"^(\s*(?:\} else )?if )(.*)( \{)$", l)
            if m and "let " not in m.group(2):
                add(f"{m.group(1)}false && ({m.group(2)}){m.group(3)}", "if false")
                add(f"{m.group(1)}true || ({m.group(2)}){m.group(3)}", "if true")
            if re.match(r"^\s*[\w\.\[\]\*]+(\(.*\)|\s*[-+|<&]*=\s.*);$", l) and not st.startswith(("let ", "return")):
                add(re.match(r"^\s*", l).group(0) + "// deleted", "delete")
            if st.startswith("let mut ") is False and re.match(r"^\s*\d+ *(\.\.=? *\d+)? *=> ", l):
                pass
    rnd = random.Random(7)
    rnd.shuffle(out)
    # at most a few of the same line and kind
    seen, res = {}, []
    for m in out:
        k = (m[0], m[1])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= int(os.environ.get("PERLINE", "2")):
            res.append(m)
    return res

def run(cmd, t, cwd=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (12 << 30, 12 << 30)))
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"

setup()
ms = [m for i, m in enumerate(mutants()) if i % pn == pi and only in m[0]]
done = set()
if os.path.exists(OUT):
    for x in open(OUT):
        x = json.loads(x)
        done.add((x["file"], x["line"], x["new"]))
print(len(ms), "mutants")
lim = int(os.environ.get("LIMIT", "100000"))
for f, n, old, new, kind in ms[:lim]:
    if (f, n + 1, new.strip()) in done:
        continue
    src = open("/repo/" + f).read().split("\n")
    src[n] = new
    open(f"{W}/repo/{f}", "w").write("\n".join(src))
    rec = {"file": f, "line": n + 1, "kind": kind, "old": old.strip(), "new": new.strip()}
    rc, o = run(["cargo", "build", "--release", "--offline"], 300, W + "/harness")
    if rc != 0:
        rec["result"] = "no build"
    else:
        rec["result"] = "survived"
        for c in ORDER:
            rc, o = run([W + "/harness/target/release/jdcheck", "run", c], 200)
            if rc != 0:
                rec["result"] = "killed" if rc == 1 else f"rc {rc}"
                rec["by"] = c
                rec["msg"] = o.strip().split("\n")[-1 if rc != 1 else 0][:200]
                break
    open(f"{W}/repo/{f}", "w").write(open("/repo/" + f).read())
    open(OUT, "a").write(json.dumps(rec) + "\n")
    print(rec["result"], rec.get("by", ""), f, n + 1, kind, new.strip()[:100], flush=True)
