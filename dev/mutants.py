"""Development aid: small textual mutants of the sources that pass the existing tests; which of them does the proof accept?
usage: mutants.py OUT [FILE-REGEX [N/M]]"""
import json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, PAT = sys.argv[1], re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
PART, OF = map(int, sys.argv[3].split("/")) if len(sys.argv) > 3 else (0, 1)
W = f"/tmp/mutwt{PART}"
FILES = ["graphrox-rs/src/" + f for f in ("graph/standard.rs", "graph/compressed.rs", "matrix/csr_adjacency_matrix.rs", "matrix/csr_square_matrix.rs", "util/mod.rs")] + ["graphrox-c/src/lib.rs"]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"<<= 1", "<<= 2"), (r" >> ", " << "), (r" & ", " | "), (r"\|= ", "^= "), (r" \|\| ", " && "), (r" && ", " || "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcol\b", "row"), (r"\brow\b", "col"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])0(?![\w.x])", "1"), (r"(?<![\w.])2(?![\w.])", "3"),
       (r"(?<![\w.])8(?![\w.])", "16"), (r"(?<![\w.])64(?![\w.])", "63"), (r"if !", "if "), (r"if (?!let|!)", "if !"), (r"checked_(add|mul)", r"wrapping_\1_"), (r"\bis_none\b", "is_some"), (r"\bis_some\b", "is_none"),
       (r"_col_", "_row_"), (r"_row_", "_col_"), (r"from_vertex_id", "to_vertex_id"), (r"to_vertex_id", "from_vertex_id"), (r"\bOk\b", "Err"), (r"undirected\(", "directed("), (r"to_be_bytes", "to_le_bytes"), (r"from_be_bytes", "from_le_bytes"),
       (r"saturating_add", "wrapping_add"), (r"null_mut\(\)", "dangling"), (r"as u64\b", "as u32 as u64"), (r"as usize\b", "as u32 as usize"), (r"C_TRUE", "C_FALSE"), (r"C_FALSE", "C_TRUE"), (r"dimension", "entry_count"), (r"entry_count", "dimension"),
       (r"edge_count", "vertex_count"), (r"vertex_count", "edge_count"), (r"continue;", "break;"), (r"in_edges", "out_edges"), (r"out_edges", "in_edges"), (r"in_degree", "out_degree"), (r"out_degree", "in_degree")]

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def mutants():
    out = []
    for f in FILES:
        if not PAT.search(f): continue
        t = open(f"/repo/{f}").read().split("#[cfg(test)]\nmod ")[0].split("\n")
        for i, l in enumerate(t):
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "/*", "*")) or "String::from" in l or s.startswith('"'): continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():] if "(" not in a else l[:m.start()] + re.sub(a, b, l[m.start():], count=1)
                    if n != l: out.append((f, i, n))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "const", "type", ".", "pub", "continue", "break")) and l.count("(") == l.count(")") and t[i - 1].rstrip().endswith(("{", ";", "}", "")) :
                out.append((f, i, re.match(" *", l).group(0) + "();"))
    return [m for n, m in enumerate(out) if n % OF == PART]
if __name__ == "__main__":
    ms = mutants()
    random.Random(3).shuffle(ms)
    sh(f"rm -rf {W}; cp -a /repo {W}; cd {W} && cargo test --workspace --offline --no-run")
    for k, (f, i, n) in enumerate(ms):
        p = f"{W}/{f}"
        src = open(p).read()
        t = src.split("\n")
        old = t[i]
        t[i] = n
        open(p, "w").write("\n".join(t))
        try:
            r = sh(f"cd {W} && timeout 120 cargo test --workspace --offline -q")
            if r.returncode == 0:
                g = sh(f"mkdir -p {W}-gen && {V}/tool/target/debug/gxtract --repo {W} --contracts {V}/contracts --out {W}-gen/gen.rs --report {W}-gen/rep.json")
                d = sh(f"cd {W}-gen && timeout 400 verus gen.rs --crate-type lib --multiple-errors 1 --triggers-mode silent --num-threads 4 2>&1 | grep -E '^error|verification results' | sort | uniq -c | head -4")
                rep = json.load(open(f"{W}-gen/rep.json"))
                dem = [x for x, y in rep["functions"].items() if y["kind"] == "demoted"]
                v = re.sub(r"\s+", " ", d.stdout)
                ok = "0 errors" in v and not dem
                with open(OUT, "a") as o:
                    o.write(f"{'ACCEPTED' if ok else 'noticed'} {f}:{i + 1}\n   - {old.strip()}\n   + {n.strip()}\n   {v[:200]} {dem}\n")
        finally:
            open(p, "w").write(src)
    with open(OUT, "a") as o: o.write(f"DONE {len(ms)}\n")
