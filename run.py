#!/usr/bin/env python3
"""Decides one property: see DESIGN.md.

run.py PROPERTY [--tier quick|thorough] [--only SCENARIO] [--keep]
"""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(HERE, "work")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
import plan  # noqa: E402

KTOOLS = ["/root/.kani/kani-0.68.0/bin"]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV["PATH"] = ENV["PATH"] + ":" + ":".join(KTOOLS)
FLAGS = ("--no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --no-bounds-check "
         "--no-pointer-check --no-div-by-zero-check --no-pointer-primitive-check").split()
SOLVE = "--object-bits 16 --slice-formula --sat-solver cadical --unwinding-assertions".split()
TOTAL = {"quick": 840, "thorough": 6 * 3600}
JOBS = 8
MAX_UNWIND = 9


class Inconclusive(Exception):
    pass


STOP = threading.Event()
RUNNING = set()


class Stopped(Exception):
    pass


def stop_all():
    """A violation is established: the other solver runs are not needed."""
    STOP.set()
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def sh(cmd, cwd=None, env=None, timeout=None, check=True, log=None, keep=False):
    if STOP.is_set() and not keep:
        raise Stopped()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    if not keep:
        RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    finally:
        RUNNING.discard(p)
    if STOP.is_set() and not keep:
        raise Stopped()
    if log:
        with open(log, "w") as f:
            f.write(" ".join(cmd) + "\n" + out)
    if check and p.returncode != 0:
        raise subprocess.CalledProcessError(p.returncode, cmd, out)
    return p.returncode, out


# ---- building --------------------------------------------------------------

def kani_env():
    e = dict(ENV)
    e["RUSTFLAGS"] = "-Zmir-opt-level=3 -Zinline-mir=yes"
    return e


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def fresh_src(src, dst):
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for root, _, files in os.walk(src):
        for f in files:
            a = os.path.join(root, f)
            b = os.path.join(dst, os.path.relpath(a, src))
            os.makedirs(os.path.dirname(b), exist_ok=True)
            with open(a, "rb") as i, open(b, "wb") as o:
                o.write(i.read())


def daab_manifest(vstd_feats, model):
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    t = re.sub(r"(?m)^\[dev-dependencies[^\]]*\][^\[]*", "", t)
    if model:
        dep = 'vstd = { path = "%s/vstd", features = %s }' % (HERE, json.dumps(vstd_feats))
        t = re.sub(r"(?m)^\[dependencies\]", "[dependencies]\n" + dep, t)
    return t


def harness_manifest(daab, model):
    return """[package]
name = "harness"
version = "0.1.0"
edition = "2021"
autobins = false
[lib]
path = "src/lib.rs"
%s
[dependencies]
daab = { path = "%s" }
%s[features]
n4 = []
count = []
bomb = []
state = []
cans = []
diag = ["daab/diagnostics"]
unsized = ["daab/unsized"]
doc = []
mutbox = ["daab/mut_box"]
[profile.dev]
incremental = false
codegen-units = 256
[workspace]
""" % ("" if model else '[[bin]]\nname = "replay"\npath = "src/main.rs"', daab,
       'vstd = { path = "%s/vstd" }\n' % HERE if model else "")


LITERAL = re.compile(r'''r(#*)"(?:.|\n)*?"\1|"(?:\\(?:.|\n)|[^"\\])*"|'(?:\\.|[^\\'])'|//[^\n]*|/\*(?:.|\n)*?\*/''')


def explicit_captures(t):
    """`format!("{x}")` as `format!("{x}", x = x)`: a macro of the model sees
    only its arguments."""
    out, at = [], 0
    for m in re.finditer(r"\b(?:write|writeln|format)!\s*\(", t):
        if m.start() < at:
            continue
        i, depth, lit = m.end(), 1, None
        while i < len(t) and depth:
            q = LITERAL.match(t, i)
            if q:
                if lit is None and q.group(0)[0] in 'r"':
                    lit = q.group(0)
                i = q.end()
                continue
            depth += (t[i] in "([{") - (t[i] in ")]}")
            i += 1
        args = t[m.end():i - 1]
        names = []
        for n in re.findall(r"\{([A-Za-z_]\w*)\s*(?::[^}]*)?\}", (lit or "").replace("{{", "")):
            if n not in names and not re.search(r"(?:,|^)\s*%s\s*=[^=]" % n, args):
                names.append(n)
        if names:
            args = LITERAL.sub(lambda q: "" if q.group(0)[0] == "/" else q.group(0), args).rstrip()
            args = args[:-1] if args.endswith(",") else args
        out += [t[at:m.end()], explicit_captures(args)] + [", %s = %s" % (n, n) for n in names]
        at = i - 1
    return "".join(out) + t[at:]


def prepare(cfg, variant, names):
    """Copies the current source, compiles it with the harness, returns the
    goto binaries of the scenarios."""
    root = os.path.join(WORK, cfg.name + (variant and "_" + variant))
    daab, h = os.path.join(root, "daab"), os.path.join(root, "h")
    fresh_src(os.path.join(REPO, "src"), os.path.join(daab, "src"))
    vf = list(cfg.vstd)
    if "enum" in variant:
        vf.append("enum_entry")
    if "vec6" in variant:
        vf.append("vec6")
    write(os.path.join(daab, "Cargo.toml"), daab_manifest(vf, cfg.model))
    if cfg.model:
        with open(os.path.join(daab, "src/lib.rs"), "a") as f:
            f.write("\nextern crate vstd as std;\n")
        if "realvec" not in variant:
            for rel in plan.SHADOW_VEC:
                p = os.path.join(daab, "src", rel)
                if not os.path.exists(p):
                    continue
                t = open(p).read()
                with open(p, "a") as f:
                    if not re.search(r"(?m)^\s*(pub )?use std::vec::", t):
                        f.write("\n#[allow(unused_imports)]\nuse ::vstd::shadow::Vec;\n")
                    f.write("\n#[allow(unused_imports)]\nuse ::vstd::shadow_macro::vec;\n")
    if cfg.nofmt:
        p = os.path.join(daab, "src/diagnostics/mod.rs")
        if os.path.exists(p):
            with open(p, "a") as f:
                f.write("\n#[allow(unused_imports)]\nuse ::vstd::format;\n")
    if cfg.fmtmodel:
        d = os.path.join(daab, "src/diagnostics")
        for rel in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            p = os.path.join(d, rel)
            if rel != "mod.rs" and rel.endswith(".rs"):
                t = explicit_captures(open(p).read())
                with open(p, "w") as f:
                    f.write(t + "\n#[allow(unused_imports)]\nuse ::vstd::{format, write, writeln};\n")
    fresh_src(os.path.join(HERE, "harness/src"), os.path.join(h, "src"))
    write(os.path.join(h, "Cargo.toml"), harness_manifest("../daab", True))
    if os.path.exists(os.path.join(REPO, "Cargo.lock")) and not os.path.exists(os.path.join(h, "Cargo.lock")):
        pass
    tgt = os.path.join(root, "target")
    cmd = ["cargo", "kani", "--target-dir", tgt, "--only-codegen", "-Z", "unstable-options",
           "--no-assertion-reach-checks", "--exact"]
    if cfg.features:
        cmd += ["--features", ",".join(cfg.features)]
    for n in names:
        cmd += ["--harness", "proofs::" + n]
    for root_, _, files in os.walk(tgt):
        for f in files:
            if f.endswith(".out") and "__RNv" in f:
                os.unlink(os.path.join(root_, f))
    sh(cmd, cwd=h, env=kani_env(), log=os.path.join(root, "codegen.log"))
    bins = {}
    for root_, _, files in os.walk(tgt):
        for f in files:
            if f.endswith(".symtab.out"):
                m = re.match(r".*?__(RN.*?)\.symtab\.out$", f)
                if not m:
                    continue
                for n in names:
                    if re.search(r"6proofs%d_?%s$" % (len(n), re.escape(n)), m.group(1)):
                        bins[n] = (os.path.join(root_, f), "_" + m.group(1))
    miss = [n for n in names if n not in bins]
    if miss:
        raise Inconclusive("no goto binary for " + ", ".join(miss))
    return bins


def prepare_any(cfg, names, variants=("", "enum", "realvec", "enum_realvec")):
    last = None
    for variant in (variants if cfg.model else [""]):
        try:
            return variant, prepare(cfg, variant, names)
        except subprocess.CalledProcessError as e:
            last = e
    raise Inconclusive("configuration %s does not compile:\n%s" % (cfg.name, "\n".join(re.findall(r"(?m)^error.*(?:\n(?!warning).+)*", last.output or "")[:6])[:2500] or (last.output or "")[-1500:]))


def build_native(cfg):
    root = os.path.join(WORK, "native_" + cfg.name)
    h, daab = os.path.join(root, "h"), os.path.join(root, "daab")
    fresh_src(os.path.join(REPO, "src"), os.path.join(daab, "src"))
    write(os.path.join(daab, "Cargo.toml"), daab_manifest([], False))
    fresh_src(os.path.join(HERE, "harness/src"), os.path.join(h, "src"))
    write(os.path.join(h, "Cargo.toml"), harness_manifest("../daab", False))
    cmd = ["cargo", "build", "--target-dir", os.path.join(h, "target")]
    if cfg.features:
        cmd += ["--features", ",".join(cfg.features)]
    env = dict(ENV, RUSTC_BOOTSTRAP="1") if "unsized" in cfg.features else ENV
    sh(cmd, cwd=h, env=env, log=os.path.join(h, "build.log"), keep=True)
    return os.path.join(h, "target/debug/replay")


# ---- solving ---------------------------------------------------------------

HARNESS_FN = re.compile(r"^<?&?(vstd|kani|harness|core::slice|%s)::" % "|".join(plan.HARNESS_MODULES))
IGNORED_FN = re.compile(r"^(__rust_|kani::rustc_intrinsics|std::alloc|std::fmt|core::fmt|alloc::)")


def select(props, prop):
    """Which generated properties decide `prop`."""
    checks, wit, panics, aux = [], [], [], []
    for p in props:
        c, d, f, n = p["class"], p["description"], p["sourceLocation"].get("function", ""), p["name"]
        if c == "cover":
            if d.startswith("CHECK " + prop + " "):
                checks.append(n)
            elif d.startswith("WITNESS"):
                wit.append(n)
        elif c == "assertion" or c == "arithmetic_overflow":
            if "VSTD-LIMIT" in d:
                aux.append(n)
            elif IGNORED_FN.match(f):
                continue
            elif HARNESS_FN.match(f) and f != "kani::panic":
                continue
            else:
                panics.append(n)
        elif c == "safety_check" and "vtable comparison" in d and prop == "P24":
            # Rust leaves it open how many vtables a type has.
            checks.append(n)
        elif c == "unsupported_construct":
            aux.append(n)
    return checks, wit, panics, aux


def cbmc_json(cmd, timeout, mem_gb=14):
    pre = ["bash", "-c", "ulimit -v %d; exec \"$@\"" % (mem_gb * 1024 * 1024), "x"]
    rc, out = sh(pre + cmd, timeout=timeout, check=False)
    try:
        return json.loads(out)
    except ValueError:
        raise Inconclusive("cbmc gave no result (exit %s): %s" % (rc, out[-400:]))


def solve(prop, sc, binary, outdir, deadline):
    """Runs the solver on one scenario."""
    t0 = time.time()
    src, fn = binary
    g = os.path.join(outdir, sc.name + ".goto")
    left = lambda: max(5, min(sc.timeout, deadline - time.time()))
    res = {"scenario": sc.name, "status": "ok"}
    try:
        sh(["goto-cc", src, "/root/.kani/kani-0.68.0/library/kani/kani_lib.c", "-o", g], timeout=left())
        sh(["goto-cc", g, "--function", fn, "-o", g], timeout=left())
        sh(["goto-instrument", "--drop-unused-functions", g, g], timeout=left())
        sh(["goto-instrument", "--ensure-one-backedge-per-target", g, g], timeout=left())
        listing = cbmc_json(["cbmc", g, "--show-properties", "--json-ui"] + FLAGS, left())
        props = [p for e in listing if "properties" in e for p in e["properties"]]
        desc = {p["name"]: p for p in props}
        checks, wit, panics, aux = select(props, prop)
        if not checks and not sc.panic_only:
            raise Inconclusive("scenario %s has no check for %s" % (sc.name, prop))
        fns = sorted({p["sourceLocation"].get("function", "") for p in props} - {""})
        res["functions"] = [f for f in fns if "daab::" in f and not HARNESS_FN.match(f)]
        # Loops of daab itself start at the scenario's bound (or a hint, which
        # only saves time), iterator internals at the number of slots. A loop
        # whose bound turns out too small gets a larger one, and the solver
        # runs again.
        _, code = sh(["goto-instrument", "--show-goto-functions", g], timeout=left())
        bad = [m for m in re.findall(r"\*\(cast\(address_of\((_RN[^:)\s]*)\)", code) if "7harness" in m or "4vstd" in m]
        if bad:
            # Kani reads a constant from a static of equal initial contents,
            # even if the static is mutable.
            raise Inconclusive("scenario %s: constant read from the static %s" % (sc.name, bad[0]))
        _, loops = sh(["goto-instrument", "--show-loops", g], timeout=left())
        bound, loop_id = {}, {}
        for m in re.finditer(r"Loop (\S+):\n.* function (.*)", loops):
            loop_id[m.group(2) + "." + m.group(1).rsplit(".", 1)[1]] = m.group(1)
            if re.match(r"(?:<?(?:impl )?(?:daab)::|std::option|<.* as daab)", m.group(2)):
                bound[m.group(1)] = sc.unwind
                for pat, n in sc.hints:
                    if re.search(pat, m.group(2) + "." + m.group(1).rsplit(".", 1)[1]):
                        bound[m.group(1)] = n
        if sc.rec:
            # Requests nest: a bound on recursion, checked like those on loops.
            for m in re.finditer(r"(?m)^(\S.*) /\* (_R\S+) \*/$", code):
                if "daab" in m.group(1):
                    bound[m.group(2)] = sc.rec
        if re.search(r"\bmemcmp\(", code):
            # Part of the solver's library, so not among the listed loops.
            bound["memcmp.0"] = 100
        while True:
            base = ["cbmc", g, "--json-ui", "--verbosity", "8", "--unwind", str(sc.inner)] + FLAGS + SOLVE
            if bound:
                base += ["--unwindset", ",".join("%s:%d" % x for x in bound.items())]
            cmd = list(base)
            for n in checks + wit + panics + aux:
                cmd += ["--property", n]
            ans = cbmc_json(cmd, left())
            results = [r for e in ans if "result" in e for r in e["result"]]
            if not results:
                raise Inconclusive("no verdict: " + json.dumps(ans)[-600:])
            res["runs"] = res.get("runs", 0) + 1
            short = {}
            for r in results:
                m = re.match(r"(.*)\.unwind\.(\d+)$", r["property"])
                if m and r["status"] == "FAILURE":
                    short[loop_id.get(m.group(1) + "." + m.group(2), m.group(1) + "." + m.group(2))] = r["property"]
                elif r["property"].endswith(".recursion") and r["status"] == "FAILURE":
                    short[r["property"][:-len(".recursion")]] = r["property"]
            grow = [l for l in short if bound.get(l, sc.inner) < MAX_UNWIND]
            if not grow or any(r["status"] == "FAILURE" and r["property"] in checks + panics for r in results):
                break
            res.setdefault("raised", []).extend(short[l] for l in grow)
            if os.environ.get("RUN_DEBUG"):
                print("   raising", sc.name, [short[l] for l in grow], flush=True)
            for l in grow:
                bound[l] = bound.get(l, sc.inner) + 1
        res["bounds_of_loops"] = sorted(set(bound.values()))
        for e in ans:
            m = e.get("messageText", "") if isinstance(e, dict) else ""
            a = re.match(r"(\d+) variables, (\d+) clauses", m)
            if a:
                res["variables"], res["clauses"] = int(a.group(1)), int(a.group(2))
            a = re.match(r"Runtime Solver: ([\d.e-]+)s", m)
            if a:
                res["solver_s"] = res.get("solver_s", 0) + float(a.group(1))
            a = re.match(r"Runtime Symex: ([\d.e-]+)s", m)
            if a:
                res["symex_s"] = float(a.group(1))
            a = re.match(r"size of program expression: (\d+)", m)
            if a:
                res["steps"] = int(a.group(1))
        st = {r["property"]: r["status"] for r in results}
        res["queries"] = len(st)
        res["checks"] = len(checks)
        res["panic_sites"] = len(panics)
        bad_unwind = [n for n in st if ".unwind." in n or ".recursion" in n if st[n] == "FAILURE"]
        bad_aux = [n for n in aux if st.get(n) == "FAILURE"]
        fails = [n for n in checks + panics if st.get(n) == "FAILURE"]
        unknown = [n for n in checks + panics if st.get(n) not in ("FAILURE", "SUCCESS")]
        res["witnesses"] = sum(st.get(n) == "FAILURE" for n in wit)
        # The compiler may have split a witness by path: one copy is enough.
        at = lambda n: (desc[n]["description"], desc[n]["sourceLocation"].get("line"))
        reached = {at(n) for n in wit if st.get(n) == "FAILURE"}
        res["unreached_witnesses"] = sorted({desc[n]["description"] for n in wit if at(n) not in reached})
        if fails:
            res["status"] = "fail"
            res["failing"] = []
            for n in fails[:3]:
                tr = cbmc_json(base + ["--trace", "--property", n], left())
                inp = [0] * plan.NI
                for e in tr:
                    if not isinstance(e, dict):
                        continue
                    for r in e.get("result", []):
                        if r["property"] != n:
                            continue
                        for s in r.get("trace", []):
                            if s.get("stepType") == "assignment":
                                m = re.search(r"INP\[(?:[^\]]*?/\*)?(\d+)", s.get("lhs", ""))
                                if m:
                                    d = s["value"].get("data", s["value"].get("binary", "0"))
                                    inp[int(m.group(1))] = int(s["value"]["binary"], 2) if "binary" in s["value"] else int(d)
                f = {"property": n, "description": desc[n]["description"],
                     "at": desc[n]["sourceLocation"], "inputs": inp}
                res["failing"].append(f)
                if replay(prop, sc, f):
                    res["hit"] = f
                    break
        res["longer"] = any("vector longer" in desc[n]["description"] for n in bad_aux)
        if bad_unwind or bad_aux or unknown:
            res["limits"] = [(desc.get(n) or {}).get("description", n) + " @ " + n for n in bad_unwind + bad_aux + unknown][:8]
            if not fails:
                res["status"] = "limit"
        elif res["unreached_witnesses"] and not fails:
            res["status"] = "vacuous"
    except Stopped:
        res["status"] = "skipped"
    except subprocess.TimeoutExpired:
        res["status"] = "timeout"
    except subprocess.CalledProcessError as e:
        res["status"] = "error"
        res["detail"] = (e.output or "")[-800:]
    except Inconclusive as e:
        res["status"] = "error"
        res["detail"] = str(e)
    finally:
        if os.path.exists(g) and not KEEP:
            os.unlink(g)
    res["wall_s"] = round(time.time() - t0, 1)
    return res


NATIVE, NLOCK = {}, threading.Lock()


def native(c):
    with NLOCK:
        if c not in NATIVE:
            try:
                NATIVE[c] = build_native(plan.CFG[c])
            except subprocess.CalledProcessError as e:
                print("native build failed: %s" % (e.output or "")[-1500:])
                NATIVE[c] = None
        return NATIVE[c]


def replay(prop, sc, f):
    """Does the counterexample show on the real crate?"""
    args = ",".join(map(str, f["inputs"]))
    exe = native(sc.cfg)
    if not exe:
        return False
    try:
        rc, out = sh([exe, sc.name, args, prop, "4000"], check=False, timeout=120, keep=True)
    except subprocess.TimeoutExpired:
        return False
    f["replay"] = out.strip()[-400:]
    if os.environ.get("RUN_DEBUG"):
        print("   replay", sc.name, f["description"], f["at"].get("file"), f["at"].get("line"), f["at"].get("function"), args, "->", f["replay"], flush=True)
    return rc == 1 and "REPRODUCED" in out


KEEP = False


def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) (.*)", l)
            if m:
                r.append(m.groups())
    return r


def main():
    global KEEP
    t0 = time.time()
    if sys.argv[1] == "--setup":
        os.makedirs(WORK, exist_ok=True)
        v, b = prepare_any(plan.CFG["base"], ["h0_look"])
        print("setup: encodes", sorted(b), v or "")
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--only":
            only = a.pop(0).split(",")
        elif x == "--keep":
            KEEP = True
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    lock = open(os.path.join(WORK, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    scs = plan.scenarios(prop, tier)
    if only:
        scs = [s for s in scs if s.name in only]
    deadline = t0 + TOTAL[tier]
    outdir = os.path.join(WORK, "out")
    os.makedirs(outdir, exist_ok=True)
    results, errors, variants = [], [], {}
    known = known_findings()
    encoding = 0.0

    def run_round(scs, variants_of):
        """Encodes and solves these scenarios; returns those whose vectors were too short."""
        nonlocal encoding
        again = []
        by_cfg = {}
        for s in scs:
            by_cfg.setdefault(s.cfg, []).append(s)
        with cf.ThreadPoolExecutor(4) as cp, cf.ThreadPoolExecutor(JOBS) as ex:
            t = time.time()
            prep = {cp.submit(prepare_any, plan.CFG[c], sorted({s.name for s in l}), variants_of(c)): (c, l) for c, l in by_cfg.items()}
            todo = []
            for f in cf.as_completed(prep):
                c, l = prep[f]
                try:
                    variants[c], bins = f.result()
                except Inconclusive as e:
                    errors.append(str(e))
                    continue
                except Exception as e:  # noqa: BLE001
                    errors.append("%s: %r" % (c, e))
                    continue
                todo += [(s, bins[s.name]) for s in l]
            todo.sort(key=lambda x: -x[0].est)
            encoding += time.time() - t
            futs = {ex.submit(solve, prop, s, b, outdir, deadline): s for s, b in todo}
            for f in cf.as_completed(futs):
                r = f.result()
                s = futs[f]
                r["cfg"] = s.cfg
                if r["status"] == "limit" and r["longer"] and "vec6" not in variants[s.cfg]:
                    again.append(s)
                    continue
                results.append((s, r))
                if r["status"] == "skipped":
                    continue
                if r.get("hit") and not any(k[0] == prop and k[1] == s.name for k in known):
                    stop_all()
                print("  %-28s %-8s %6.1fs steps=%s vars=%s clauses=%s solver=%ss queries=%s" % (
                    s.name, r["status"], r["wall_s"], r.get("steps"), r.get("variables"), r.get("clauses"),
                    round(r.get("solver_s", 0), 1), r.get("queries")), flush=True)
        return again

    longer = run_round(scs, lambda c: ("", "enum", "realvec", "enum_realvec"))
    if longer and not STOP.is_set():
        print("  again with longer vectors: " + " ".join(s.name for s in longer), flush=True)
        run_round(longer, lambda c: (variants[c] + "_vec6",))
    violations, notes, serious = [], list(errors), False
    for s, r in sorted(results, key=lambda x: x[0].name):
        if r["status"] == "fail":
            kf = [k for k in known if k[0] == prop and k[1] == s.name]
            hit = r.get("hit")
            if hit and kf:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[0][2]))
            elif hit:
                path = os.path.join(EVID, "replay_%s_%s.json" % (prop, s.name))
                write(path, json.dumps({"property": prop, "scenario": s.name, "configuration": s.cfg,
                                        "violated": hit["description"], "inputs": hit["inputs"],
                                        "shown": hit["replay"], "other": r["failing"]}, indent=1))
                violations.append((s, hit, path))
            else:
                serious = True
                notes.append("%s: counterexample to '%s' did not reproduce: %s" % (
                    s.name, r["failing"][0]["description"], r["failing"][0].get("replay")))
        elif r["status"] not in ("ok", "skipped"):
            serious |= r["status"] == "vacuous"
            notes.append("%s: %s %s" % (s.name, r["status"], r.get("limits") or r.get("unreached_witnesses") or r.get("detail", "")))
    wall = time.time() - t0
    ok = [r for _, r in results if r["status"] == "ok"]
    fns = sorted({f for _, r in results for f in r.get("functions", [])})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": plan.LEVEL,
        "coverage": {
            "explanation": plan.explain(prop),
            "scenarios": [dict(r, bounds=s.bounds) for s, r in sorted(results, key=lambda x: x[0].name)],
            "scenarios_discharged": len(ok), "scenarios_total": len(scs),
            "queries_discharged": sum(r.get("queries", 0) for r in ok),
            "solver_s": round(sum(r.get("solver_s", 0) for _, r in results), 1),
            "symbolic_execution_s": round(sum(r.get("symex_s", 0) for _, r in results), 1),
            "program_steps": sum(r.get("steps", 0) for _, r in results),
            "reachability_witnesses_reached": sum(r.get("witnesses", 0) for _, r in results),
            "functions_encoded": fns,
            "encoding_s": round(encoding, 1), "encoding_variants": variants,
            "inconclusive": notes,
        },
        "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(wall, 1), "violations": len(violations),
    }
    for r in ev["coverage"]["scenarios"]:
        r.pop("functions", None)
    write(os.path.join(EVID, prop + ".json"), json.dumps(ev, indent=1))
    for n in notes:
        print("INCONCLUSIVE", n)
    print("%s %s: %d/%d scenarios discharged, %d queries, %.0f s" % (prop, tier, len(ok), len(scs), ev["coverage"]["queries_discharged"], wall))
    for s, h, path in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   %s: %s inputs=%s" % (s.name, h["replay"], h["inputs"]))
    if violations:
        return 1
    # Scenarios that could not be decided are reported, and are no part of what
    # was explored; without a good part of them explored there is no answer, nor
    # if a counterexample did not reproduce.
    if serious or not ok or 2 * len(ok) < len(scs):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
