#!/usr/bin/env python3
"""Decides one property of /repo: contracts spliced into the current source, Verus on all of it,
and a search for a failing input against the real code. See DESIGN.md, "The driver"."""
import argparse, ast, hashlib, json, os, platform, re, resource, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(V, ".work")
EVID = os.path.join(V, "evidence")
GX = os.path.join(V, "tool/target/debug/gxtract")
RP = os.path.join(V, "replay/target/debug/gxreplay")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
SECS = {"quick": 8, "thorough": 150}       # search when the proof is accepted
SECS_FAILED = {"quick": 100, "thorough": 250}  # search for an input behind a failed obligation
PROCS = 6
PYSRC = os.path.join(REPO, "graphrox-py/graphrox/__init__.py")
PYPKG = os.path.join(WORK, "py/mod")            # the module and the library it loads, as built on this run
PYLIB = os.path.join(WORK, "py/target/debug/libgraphrox.so")
PYCHECK = os.path.join(V, "replay/py_check.py")


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=ENV, **kw)


def repo_hash():
    h = hashlib.sha256()
    for top in ("graphrox-rs", "graphrox-c"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build(dir_, binary, force):
    """cargo build; `force` makes cargo look at every file again"""
    if force:
        for n in ("graphrox", "gxreplay"):
            sh(["cargo", "clean", "--offline", "-p", n], cwd=dir_)
    r = sh(["cargo", "build", "--offline"], cwd=dir_)
    if r.returncode != 0 or not os.path.exists(binary):
        return r.stderr[-3000:]
    return None


def build_replay():
    stamp = os.path.join(V, "replay/target/gx-stamp")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    err = build(os.path.join(V, "replay"), RP, old is not None and old != now)
    if err is None:
        open(stamp, "w").write(now)
    return err


def build_py():
    """the Python package next to the C library, in a directory of its own"""
    stamp = os.path.join(WORK, "py/target/gx-stamp")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "graphrox-c/Cargo.toml"), "--lib", "--target-dir", os.path.join(WORK, "py/target")]
    lock = os.path.join(REPO, "Cargo.lock")
    had = os.path.exists(lock)
    if old is not None and old != now:
        for n in ("graphrox", "graphrox-c"):
            sh(["cargo", "clean", "--offline", "--manifest-path", os.path.join(REPO, "graphrox-c/Cargo.toml"), "--target-dir", os.path.join(WORK, "py/target"), "-p", n])
    r = sh(cmd)
    if not had and os.path.exists(lock):
        os.remove(lock)
    if r.returncode != 0 or not os.path.exists(PYLIB):
        return r.stderr[-3000:]
    open(stamp, "w").write(now)
    shutil.rmtree(PYPKG, ignore_errors=True)
    shutil.copytree(os.path.dirname(PYSRC), os.path.join(PYPKG, "graphrox"), ignore=shutil.ignore_patterns("*.so", "*.dll", "*.dylib", "__pycache__"))
    shutil.copy(PYLIB, os.path.join(PYPKG, "graphrox", f"graphrox-{platform.machine()}-unknown-linux-gnu.so"))
    return None


# ---------------------------------------------------------------- the proof

PROOF_MSG = re.compile(
    r"postcondition|precondition|assertion fail|invariant not|overflow|underflow|decreases|divi|out of bounds|not satisfied|"
    r"cannot show|failed|termination|bit shift|unreachable")


class Proof:
    def __init__(self):
        self.functions, self.failed, self.undecided, self.errors = {}, {}, {}, []
        self.demoted, self.ok, self.note = {}, False, ""
        self.trusted, self.smt_ms, self.verified, self.queries = [], 0, 0, 0
        self.lemmas, self.missing, self.rewrites, self.dropped = 0, [], {}, []
        self.vacuous, self.retries = [], 0
        self.wall = 0.0
        self.src = []


def locate(functions, line):
    best = None
    for k, f in functions.items():
        a, b = f["gen"]
        if a <= line <= b and (best is None or a > functions[best]["gen"][0]):
            best = k
    return best


LAYER = {"util": 0, "error": 0, "matrix": 1, "graph": 2, "capi": 3, "gx_clients": 4, "py": 5}


def owner(key):
    """the type a function belongs to: 'm::T as Tr::f' and 'm::T::f' -> 'T', 'm::f' -> ''"""
    head = key.split(" as ")[0] if " as " in key else key.rsplit("::", 1)[0]
    last = head.split("::")[-1].lstrip("&")
    return last if last[:1].isupper() or " as " in key else ""


def reached(functions, src, roots):
    """the contracted functions whose contracts the roots' proofs use: calls resolved by name, by the
    type written or the field called on where there is one, and by layer; what stays ambiguous counts"""
    byname = {}
    for k, f in functions.items():
        if f["kind"] in ("contracted", "demoted"):
            byname.setdefault(k.split("::")[-1], []).append(k)
    text = "\n".join(src)
    fields = {}
    for m in re.finditer(r"struct (\w+)[^{;(]*\{([^}]*)\}", text):
        for g in re.finditer(r"(\w+)\s*:\s*&?\s*(?:'\w+\s*)?(?:mut )?([\w: ]+)", m.group(2)):
            fields.setdefault(m.group(1), {})[g.group(1)] = g.group(2).replace(" ", "").split("::")[-1]
    types = {owner(k) for k in functions} - {""}

    def field_type(own, name):
        ts = {fields[t][name] for t in fields if name in fields[t] and (not own or t == own)} or {fields[t][name] for t in fields if name in fields[t]}
        return ts & types

    seen, todo = set(roots), list(roots)
    while todo:
        k = todo.pop()
        own, top = owner(k), k.split("::")[0].lstrip("&")
        a, b = functions[k]["gen"]
        body = "\n".join(src[a - 1:b])
        for m in re.finditer(r"(?:(\w+)\s*(?:::\s*<[^>;]*>\s*)?(::|\.)\s*)?\b(\w+)\s*(?:::\s*<[^>;]*>\s*)?\(([^()]*)", body):
            left, sep, n, arg = m.groups()
            if n not in byname or body[:m.start()].rstrip().endswith("fn"):
                continue
            c = [x for x in byname[n] if LAYER.get(x.split("::")[0].lstrip("&"), 5) <= LAYER.get(top, 5)]
            want = None
            if n == "next" and left and left.startswith("gx_it"):
                continue  # counted with into_iter
            if n == "into_iter":
                f = re.search(r"(\w+)\s*$", arg)
                want = field_type(own if "self" in arg else "", f.group(1)) if f else None
                if f and f.group(1) == "self":
                    want = {own}
                c += [x for x in byname.get("next", ()) for t in (want or types) if owner(x) == t + "Iter"]
                want = want and want | {t + "Iter" for t in want}
            elif left == "self" or left == "Self":
                want = {own}
            elif sep == "::" and left in types:
                want = {left}
            elif sep == "::" and left:
                if left[:1].isupper() or left in ("usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"):
                    continue  # a type of the standard library
                want = {""}
            elif sep == "." and left:
                want = field_type(own, left)
            elif sep is None:
                want = {""}
            if LAYER.get(top, 5) <= 1 and n != "into_iter":
                c = [x for x in c if LAYER.get(x.split("::")[0].lstrip("&"), 5) == 0 or x.split("::")[:2] == k.lstrip("&").split("::")[:2]]
            r = [x for x in c if owner(x) in want] if want else []
            if want == {""}:
                near = [x for x in r if x.rsplit("::", 1)[0] == k.lstrip("&").rsplit("::", 1)[0] or k.lstrip("&").startswith(x.rsplit("::", 1)[0] + "::")]
                r = near or r
            for x in r or c:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
    return seen


def enclosing(src, line):
    """(function, module) of a line of the generated file"""
    fn, mods, depth = "", [], 0
    for l in src[:line]:
        m = re.search(r"\bfn\s+(\w+)", l)
        if m and not l.lstrip().startswith("//"):
            fn = m.group(1)
    for l in reversed(src[:line]):
        m = re.match(r"(\s*)(?:pub(?:\(crate\))? )?mod (\w+)\s*\{", l)
        if m and (not mods or len(m.group(1)) < depth):
            mods.insert(0, m.group(2))
            depth = len(m.group(1))
            if depth == 0:
                break
    return fn, "::".join(mods)


def module_of(key):
    head = key.split(" as ")[0].split("::")
    n = 1 if " as " in key or not head[-2].lstrip("&")[:1].isupper() else 2
    return "::".join(head[:-n])


def extract(tag, demoted, vacuity=False):
    gen, rep = os.path.join(WORK, f"{tag}.rs"), os.path.join(WORK, f"{tag}.json")
    cmd = [GX, "--repo", REPO, "--contracts", os.path.join(V, "contracts"), "--out", gen, "--report", rep]
    if vacuity:
        cmd.append("--vacuity")
    pyrep = None
    if WITH_PY:
        out, prep = os.path.join(WORK, "py.rs"), os.path.join(WORK, "py.json")
        r = sh([sys.executable, os.path.join(V, "tool/pyx.py"), PYSRC, os.path.join(REPO, "graphrox-c/src/lib.rs"), out, prep])
        if r.returncode != 0:
            return None, None, "the translation of the Python module failed: " + r.stderr[-500:]
        pyrep = json.load(open(prep))
        for k, why in pyrep["unreached"].items():
            demoted.setdefault(k, "no translation: " + why)
        cmd += ["--py", out]
    for k, r in demoted.items():
        cmd += ["--demote", f"{k}={r}"]
    r = sh(cmd, timeout=120)
    if r.returncode != 0:
        return None, None, (r.stderr or r.stdout)[-1500:]
    rep = json.load(open(rep))
    for k, f in rep["functions"].items():
        if k.startswith("py::") and pyrep:
            f["file"], f["line"] = "graphrox-py/graphrox/__init__.py", pyrep["lines"].get(k, 0)
    clients(gen, rep, vacuity, demoted)
    return gen, rep, None


WITH_PY = False


def clients(gen, rep, vacuity, demoted):
    """the client theorems (contracts/post_clients.rs) count as functions of the property they name"""
    src = open(gen).read().split("\n")
    cur = None
    for i, l in enumerate(src):
        m = re.match(r"pub fn (client_(c\d+)_\w+)", l)
        if m:
            cur = "gx_clients::" + m.group(1)
            rep["functions"][cur] = {"file": "contracts/post_clients.rs", "line": 0, "kind": "contracted", "props": m.group(2).upper(), "loops": 0,
                                     "problems": [], "soft": [], "inlined": [], "gen": [i + 1, i + 1]}
        elif cur and l.startswith("{") and vacuity:
            src[i] = "{ assert(false);" + l[1:]
        if cur:
            rep["functions"][cur]["gen"][1] = i + 1
            if cur in demoted:
                rep["functions"][cur].update(kind="demoted", problems=[demoted[cur]])
                src[i] = "// " + src[i]
            if l.startswith("}") or (l.startswith("{") and l.endswith("}")):
                cur = None
    if vacuity or any(k in rep["functions"] for k in demoted):
        open(gen, "w").write("\n".join(src))


def verus(gen, extra=(), timeout=600):
    cmd = ["verus", os.path.basename(gen), "--crate-type", "lib", "--output-json", "--time-expanded", "--multiple-errors", "20",
           "--triggers-mode", "silent", "--num-threads", "8", *extra, "--", "--error-format=json"]
    try:
        p = subprocess.Popen(cmd, cwd=WORK, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, start_new_session=True)
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, [], "verus ran out of time"
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
    try:
        res = json.loads(out)
    except ValueError:
        res = None
    return res, diags, err[-2000:]


def classify(P, diags):
    """(failed, undecided): the obligations the verifier did not accept, by function"""
    failed, undecided, src = {}, {}, P.src
    for d in diags:
        msg = d["message"]
        spans = [s for s in d["spans"] if s["file_name"].endswith("gen.rs")]
        spans.sort(key=lambda s: not s["is_primary"])
        key = None
        for s in spans:
            # the obligation belongs to the function whose body is being verified: the innermost
            # function that contains the primary span, or, for a postcondition, its body span
            k = locate(P.functions, s["line_start"])
            if k and P.functions[k]["kind"] == "contracted":
                key = k
                break
        if "postcondition" in msg:
            # the primary span may lie in a trait's contract
            for s in spans:
                k = locate(P.functions, s["line_start"])
                if k and P.functions[k]["kind"] == "contracted":
                    key = k
                    break
        at = next((s for s in spans), None)
        text = src[at["line_start"] - 1].strip() if at else ""
        labels = "; ".join(f"{s.get('label') or 'at'}: {src[s['line_start'] - 1].strip()[:160]}" for s in spans)
        fn, mod = enclosing(src, at["line_start"]) if at else ("", "")
        entry = {"function": fn, "module": mod, "obligation": msg, "where": labels, "generated_line": at["line_start"] if at else 0}
        if key is None:
            # a lemma, or a function without a contract: says nothing about /repo by itself
            undecided.setdefault("(shared lemmas)", []).append(entry)
            continue
        f = P.functions[key]
        low = msg.lower()
        if "rlimit" in low or "resource limit" in low or f["soft"]:
            undecided.setdefault(key, []).append(entry)
        else:
            failed.setdefault(key, []).append(entry)
    return failed, undecided


def prove(tier, hunt):
    P = Proof()
    t0 = time.time()
    demoted = {}
    for rnd in range(24):
        gen, rep, err = extract("gen", demoted)
        if gen is None:
            P.note = "extraction failed: " + err
            return P
        P.functions, P.missing, P.rewrites, P.dropped = rep["functions"], rep["missing"], rep["rewrites"], rep["dropped"]
        res, diags, err = verus(gen, timeout=max(60, min(500, left() - 200)))
        vr = (res or {}).get("verification-results", {})
        if res is None and "out of time" in err:
            P.note = err
            P.demoted = demoted
            return P
        proof_run = bool(vr) and not vr.get("encountered-vir-error") and "smt" in res.get("times-ms", {})
        hard = [d for d in diags if not PROOF_MSG.search(d["message"]) and "rlimit" not in d["message"].lower()
                and "resource limit" not in d["message"].lower()] if proof_run else diags
        if proof_run and vr.get("verified", 0) + vr.get("errors", 0) > 0:
            break
        # the tree is outside the verifier's subset somewhere: take those functions out of reach
        new = {}
        for d in diags:
            for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                if not s["file_name"].endswith("gen.rs"):
                    continue
                k = locate(P.functions, s["line_start"])
                if k:
                    # first without the proof hints (they may name things that are gone), then without the
                    # body, then without the contract
                    old = demoted.get(k)
                    step = "lean: " if old is None and P.functions[k]["kind"] == "contracted" else "bare: " if old and not old.startswith("lean") else ""
                    new[k] = step + d["message"][:200].replace("\n", " ")
                    break
        new = {k: r for k, r in new.items() if not demoted.get(k, "").startswith("bare")}
        if not new:
            P.note = "verus cannot take this tree: " + "; ".join(d["message"][:160] for d in diags[:4]) + ("" if diags else err[-600:])
            P.demoted = demoted
            return P
        demoted.update(new)
    else:
        P.note = "verus cannot take this tree"
        P.demoted = demoted
        return P
    P.demoted = demoted
    P.ok = True
    P.verified = vr.get("verified", 0)
    P.errors = diags
    P.src = src = open(gen).read().split("\n")
    for m in res["times-ms"]["smt"].get("smt-run-module-times", []):
        P.smt_ms += m.get("time", 0)
        for f in m.get("function-breakdown", []):
            P.queries += 1
            if f.get("mode:", f.get("mode")) == "proof":
                P.lemmas += 1
    P.failed, P.undecided = classify(P, diags)
    # a proof is a proof: what a different run of the solver accepts is discharged
    for seed in (7, 23):
        if not P.failed and not P.undecided:
            break
        # an input that fails settles it; there has to be time for the rest, too
        hunt.more()
        if hunt.found() or left() < 320:
            break
        if seed == 23:
            # the last attempt has more lemmas at hand
            open(gen, "w").write("\n".join(src).replace(" /* MORE */", ", group_bits"))
        mods = set()
        for k, es in [*P.failed.items(), *P.undecided.items()]:
            mods |= {module_of(k).replace("const ", "") if P.functions.get(k) else m for e in es for m in [e["module"]]}
        res2, diags2, err2 = verus(gen, ["-V", "spinoff-all", "--smt-option", f"smt.random_seed={seed}", "--rlimit", "20",
                                         *[x for m in sorted(mods) for x in ("--verify-only-module", m)]], min(240, left() - 130))
        if not res2 or "smt" not in res2.get("times-ms", {}):
            break
        P.retries += 1
        f2, u2 = classify(P, diags2)
        lemmas = {e["function"] for e in u2.get("(shared lemmas)", ())}
        for old in (P.failed, P.undecided):
            for k in list(old):
                if k == "(shared lemmas)":
                    old[k] = [e for e in old[k] if e["function"] in lemmas]
                if not old[k] or (k != "(shared lemmas)" and k not in f2 and k not in u2):
                    del old[k]
    for l in src:
        m = re.search(r"\b(assume_specification\b.*|axiom fn \w+|assume\s*\(|admit\s*\(|uninterp spec fn \w+|struct Ex\w+)", l)
        if m and not l.strip().startswith("//"):
            P.trusted.append(re.sub(r"\s+", " ", m.group(1))[:140])
    body = "\n".join(src)
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:unsafe\s+)?(fn|struct)\s+(\w+)", body):
        P.trusted.append("external_body %s %s" % (m.group(1), m.group(2)))
    P.wall = time.time() - t0
    # no contract may be vacuous: with `assert(false)` in front, every contracted function must fail
    t0 = time.time()
    if left() < 150:
        P.note += " no time for the vacuity run"
        return P
    gen, rep, err = extract("vac", demoted, vacuity=True)
    if gen:
        mods = sorted({module_of(k) for k, f in rep["functions"].items() if f["kind"] == "contracted" and not k.startswith("const ")})
        res, diags, err = verus(gen, [x for m in mods for x in ("--verify-module", m)], min(300, left() - 100))
        if res and "smt" in res.get("times-ms", {}):
            hit = set()
            for d in diags:
                for s in d["spans"]:
                    if s["file_name"].endswith("vac.rs"):
                        k = locate(rep["functions"], s["line_start"])
                        if k:
                            hit.add(k)
            for k, f in rep["functions"].items():
                if f["kind"] == "contracted" and not k.startswith("const ") and k not in hit:
                    P.vacuous.append(k)
        else:
            P.note += " vacuity run failed"
    P.vac_wall = time.time() - t0
    return P


# ---------------------------------------------------------------- the search

T0 = time.time()
LIMIT = 860


def left():
    """seconds until the answer is due"""
    return LIMIT - (time.time() - T0)


def literals():
    """the constants in the sources, with how often each occurs"""
    ints, floats = {}, {}
    def see(d, x):
        d[x] = d.get(x, 0) + 1
    for top in ("graphrox-rs/src", "graphrox-c/src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                t = open(os.path.join(d, f), errors="replace").read().split("#[cfg(test)]\nmod ")[0]
                t = re.sub(r'//[^\n]*|"(?:\\.|[^"\\])*"', "", t)
                for m in re.finditer(r"\bas (u8|u16|u32|i8|i16|i32|f32)\b|\b(u8|u16|u32|i8|i16|i32|i64|f32)::(?:MAX|MIN|try_from|from)\b", t):
                    k = (m.group(1) or m.group(2)).replace("f32", "u24").replace("i64", "u63").replace("i", "u")
                    see(ints, (1 << (int(k[1:]))) % (1 << 64))
                for m in re.finditer(r"\bf(?:32|64)::(EPSILON|MIN_POSITIVE)\b", t):
                    see(floats, 2.220446049250313e-16 if m.group(1) == "EPSILON" else 2.2250738585072014e-308)
                for m in re.finditer(r"\b(\d[\d_]*)\s*<<\s*(\d+)\b", t):
                    see(ints, (int(m.group(1).replace("_", "")) << int(m.group(2))) % (1 << 64))
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(?:_?(?:[ui](?:8|16|32|64|128|size)|f32|f64))?\b", t):
                    s = m.group(1).replace("_", "")
                    try:
                        if s[:2] in ("0x", "0b"):
                            see(ints, int(s, 0) % (1 << 64))
                        elif re.fullmatch(r"\d+", s):
                            see(ints, int(s) % (1 << 64))
                        else:
                            see(floats, float(s))
                    except ValueError:
                        pass
    return ints, floats


def hints():
    """the constants that are new since the search was written (replay/literals.json): worth trying as inputs"""
    try:
        base = json.load(open(os.path.join(V, "replay/literals.json")))
        ints, floats = literals()
    except (OSError, ValueError):
        return {}
    import struct
    ni = [str(x) for x, n in ints.items() if n > base["ints"].get(str(x), 0)]
    nf = [str(struct.unpack("<Q", struct.pack("<d", x))[0]) for x, n in floats.items() if n > base["floats"].get(repr(x), 0)]
    py = set()
    if WITH_PY:
        try:
            py = {n.value for n in ast.walk(ast.parse(open(PYSRC).read())) if isinstance(n, ast.Constant) and type(n.value) is int and n.value > 2}
        except (OSError, SyntaxError, ValueError):
            pass
    return {"GX_DICT": " ".join(ni), "GX_FDICT": " ".join(nf), "GX_PYDICT": " ".join(str(x) for x in sorted(py)[:60])}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def start_search(prop, seed, secs, n, first):
    ps = []
    env = dict(ENV, **hints())
    for i in range(n):
        cur = os.path.join(WORK, f"cur.{prop}.{first + i}")
        cmd = [RP, "run", prop] if not WITH_PY else [sys.executable, PYCHECK, "run", PYPKG]
        p = subprocess.Popen([*cmd, str(seed + i * 1000), str(secs), cur], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             text=True, preexec_fn=limits, env=env)
        ps.append((p, cur))
    return ps, time.time() + secs + 60


def case_outcome(text, timeout=40):
    """None: holds; a string: how it fails"""
    try:
        cmd = [RP, "case"] if not WITH_PY else [sys.executable, PYCHECK, "case", PYPKG]
        r = subprocess.run([*cmd, text], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return f"no answer within {timeout} s"
    if r.returncode == 0:
        return None
    if r.returncode == 10:
        return r.stdout.strip()
    return f"the process ends with status {r.returncode}: {r.stderr.strip()[-200:]}"


class Hunt:
    """the search for a failing input, next to the proof"""
    def __init__(self, prop, seed, tier, known, usable):
        self.prop, self.seed, self.tier, self.known, self.usable = prop, seed, tier, known, usable
        self.ps, self.deadline, self.bad, self.tried, self.asked = [], 0, None, 0, False
        if usable:
            self.start(seed, SECS[tier], PROCS if tier == "thorough" else 3)

    def start(self, seed, secs, n):
        ps, deadline = start_search(self.prop, seed, secs, n, len(self.ps))
        self.ps += ps
        self.later = ps if self.asked else []
        self.deadline = max(self.deadline, deadline)

    def more(self):
        """once: the longer search, for when the proof does not go through"""
        if self.usable and not self.asked and not self.found():
            self.asked = True
            self.start(self.seed + 77, min(SECS_FAILED[self.tier], max(10, left() - 40)), PROCS)

    def collect(self, p, cur, out):
        m = re.search(r"TRIED (\d+)", out or "")
        self.tried += int(m.group(1)) if m else 0
        if p.returncode == 10:
            c = re.search(r"CASE (.*)", out).group(1)
            w = re.search(r"WHY (.*)", out)
            if c not in self.known:
                self.bad = self.bad or (c, w.group(1) if w else "")
        elif p.returncode != 0:
            try:
                s = open(cur).read()
                c = s[10:10 + int(s[:10])]
            except (OSError, ValueError):
                return
            w = case_outcome(c)
            if w and c not in self.known:
                self.bad = self.bad or (c, w)
            elif not w and p.returncode != -signal.SIGKILL:
                log(f"  (a process of the search ended with {p.returncode} at: {c[:200]})")

    def found(self):
        """without waiting"""
        rest = []
        for p, cur in self.ps:
            if self.bad is None and p.poll() is not None:
                self.collect(p, cur, p.communicate()[0])
            else:
                rest.append((p, cur))
        self.ps = rest
        return self.bad is not None

    def finish(self):
        while self.ps and not self.found() and time.time() < self.deadline:
            time.sleep(0.05)
        for p, cur in self.ps:
            late = self.bad is None
            p.kill()
            out = p.communicate()[0]
            if late:
                self.collect(p, cur, out)
        self.ps = []

    def stop(self):
        """not `more` after all"""
        for x in self.later:
            if x in self.ps:
                self.ps.remove(x)
                x[0].kill()
                x[0].communicate()


# ---------------------------------------------------------------- putting it together

def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) case=(\S.*?) :: (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in SECS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    replay_file = os.path.join(EVID, f"replay-{prop}.txt")
    if os.path.exists(replay_file):
        os.remove(replay_file)

    if not os.path.exists(GX) or os.path.getmtime(GX) < max(os.path.getmtime(os.path.join(V, "tool/src", f)) for f in os.listdir(os.path.join(V, "tool/src"))):
        err = build(os.path.join(V, "tool"), GX, False)
        if err:
            log("cannot build the extractor:", err)
            sys.exit(2)
    global WITH_PY
    WITH_PY = prop == "C20"
    rerr = build_py() if WITH_PY else build_replay()
    known = known_findings(prop)
    for c, what in known:
        if rerr is None and case_outcome(c):
            log(f"KNOWN-FINDING: property={prop} {what}")
    kset = {c for c, _ in known}
    hunt = Hunt(prop, seed, tier, kset, rerr is None)
    P = prove(tier, hunt)
    own = [k for k, f in P.functions.items() if prop in f["props"].split() and f["kind"] in ("contracted", "demoted")]
    mine = {k: P.functions[k] for k in sorted(reached(P.functions, P.src, own))} if P.src else {k: P.functions[k] for k in own}
    obligations = {k for k, f in mine.items() if f["kind"] in ("contracted", "demoted")}
    failed = {k: v for k, v in P.failed.items() if k in mine}
    undecided = {k: v for k, v in P.undecided.items() if k in mine or k == "(shared lemmas)"}
    if WITH_PY:
        # the wrapper is judged against the library as it is: what fails below it is for C01 to C19
        undecided.update({k: v for k, v in failed.items() if not k.startswith("py::")})
        failed = {k: v for k, v in failed.items() if k.startswith("py::")}
    demoted = {k: f["problems"] for k, f in mine.items() if f["kind"] == "demoted"}
    # what a function without a contract does (it may panic) is not known
    for k, f in mine.items():
        calls = [x for x in f["soft"] if x.startswith("calls ")]
        if calls and k not in demoted and k not in undecided:
            demoted[k] = calls
    vac = [k for k in P.vacuous if k in mine]
    # a private function that is gone leaves nothing to prove: its callers are verified without it
    private = set(open(os.path.join(V, "contracts", "private.txt")).read().split("\n"))
    gone = [k for k in P.missing if k in TAGS().get(prop, ()) and k not in private]
    proved = P.ok and not failed and not undecided and not demoted and not vac and not gone and bool(obligations)
    if proved and hunt.asked:
        # what the proof stumbled over is not part of this property
        hunt.stop()
    if not proved:
        hunt.more()
    hunt.finish()
    bad, tried = hunt.bad, hunt.tried

    level = "proof" if proved else "other"
    discharged = len(obligations) - len(set(failed) | set(undecided) | set(demoted)) if P.ok else 0
    bounded = sorted(set(undecided) | set(demoted) | set(gone)) if P.ok else sorted(mine) or [prop]
    cov = {
        "obligations": len(obligations) + P.lemmas,
        "discharged": max(0, discharged) + (P.lemmas if P.ok and "(shared lemmas)" not in P.undecided else 0),
        "checker_cmd": "verus .work/gen.rs --crate-type lib (Verus, back end Z3), gen.rs rewritten by tool/gxtract from /repo on this run",
        "trusted_base": sorted(set(P.trusted)),
        "functions_under_contract": sorted(k for k in own if k not in demoted),
        "functions_they_rely_on": sorted(k for k in obligations if k not in demoted and k not in own),
        "verus_verified_in_whole_run": P.verified,
        "smt_queries": P.queries,
        "solver_ms": P.smt_ms,
        "shared_lemmas": P.lemmas,
        "vacuity_guard": {"functions_checked": len([k for k in obligations if k not in demoted]), "vacuous": vac},
        "failed_obligations": {k: v for k, v in failed.items()},
        "undecided_obligations": undecided,
        "out_of_reach_on_this_tree": demoted,
        "contracts_without_function": gone,
        "bounded_stand_in": {"functions": bounded, "bound": f"{tried} generated cases"} if not proved else {},
        "conformance_cases_on_real_code": tried,
        "rewrites_by_the_extraction": P.rewrites,
        "dropped_by_the_extraction": P.dropped,
        "note": P.note,
        "explanation": "proof: every obligation of the functions named above was accepted; otherwise a bounded search of the real code stands in for the functions in bounded_stand_in",
    }
    violation = None
    if bad:
        violation = f"VIOLATION property={prop} replay={replay_file}"
        with open(replay_file, "w") as f:
            f.write(f"property: {prop}\nfailing input: {bad[0]}\nwhat happens: {bad[1]}\nreplay: {RP if not WITH_PY else PYCHECK} case {PYPKG if WITH_PY else ''} '{bad[0]}'\n")
            if failed:
                f.write("failed obligations:\n" + json.dumps(failed, indent=1) + "\n")
    elif failed:
        violation = f"VIOLATION property={prop} replay={replay_file} no-failing-input-found"
        with open(replay_file, "w") as f:
            f.write(f"property: {prop}\nfailed obligations (no failing input found in {tried} cases):\n" + json.dumps(failed, indent=1) + "\n\nverifier output:\n")
            for d in P.errors:
                f.write(d.get("rendered") or d["message"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUMPTIONS + (ASSUMPTIONS_PY if WITH_PY else []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    state = "proved" if proved else "NOT PROVED (bounded stand-in)"
    log(f"{prop}: {state}; {cov['discharged']}/{cov['obligations']} obligations, {P.verified} verified in the run, {tried} cases on the real code, {ev['wall_s']} s")
    if not proved:
        log("  failed:", sorted(failed), "undecided:", sorted(undecided), "out of reach:", demoted, "vacuous:", vac, "gone:", gone, P.note, rerr or "")
    if violation:
        if bad:
            log(f"  input: {bad[0]}\n  {bad[1]}")
        log(violation)
        sys.exit(1)
    if not P.ok and rerr is not None:
        log("neither the verifier nor the search could be run on this tree")
        sys.exit(2)
    sys.exit(0)


_TAGS = None


def TAGS():
    """property -> contract keys, from the contract files"""
    global _TAGS
    if _TAGS is None:
        _TAGS = {}
        for f in sorted(os.listdir(os.path.join(V, "contracts"))):
            if f.endswith(".ctr"):
                key = None
                for l in open(os.path.join(V, "contracts", f)):
                    if l.startswith("== "):
                        key = l[3:].strip()
                    elif l.startswith("props:") and key:
                        for p in l[6:].split():
                            _TAGS.setdefault(p, set()).add(key)
    return _TAGS


ASSUMPTIONS = [
    "the extraction's rewrites preserve meaning (listed in DESIGN.md; counted in rewrites_by_the_extraction)",
    "the trusted specifications of std items listed in trusted_base, including Verus's own vstd",
    "u64 hash-map keys obey the key model (vstd) and RandomState builds valid hashers",
    "a hash table of u64 keys nested in another has fewer than 2^53 entries in all (address space)",
    "f64 operators are IEEE-754 binary64, round to nearest even; NaN payloads are not distinguished",
    "usize is 64 bits wide",
    "rustc, Verus and Z3 are correct",
]

ASSUMPTIONS_PY = [
    "tool/pyx.py translates the methods of the Python module faithfully (DESIGN.md, The Python wrapper); what it cannot translate it names",
    "ctypes passes and returns the declared types as documented; an integer argument in the declared range arrives unchanged",
    "Python integers that reach the wrapper's own arithmetic lie within 2^126 of zero",
    "CPython calls __del__ once per object, and not while another object refers to it",
    "__init__ and the list classes are given what the module itself gives them (handles and pointers of the library)",
    "the contracts of the C interface (discharged on this run too, claimed by C18 and C19)",
]

if __name__ == "__main__":
    main()
