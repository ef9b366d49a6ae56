#!/usr/bin/env python3
"""Driver: decides one property with the SMT/SAT-backed harnesses registered in props.py.

  check.py ID            run the check (tier from VERIF_TIER)
  check.py --replay F    run a recorded counterexample natively against /repo
  check.py --harness H   run single harnesses (substring), development aid

Exit 0: every query discharged.  Exit 1 + VIOLATION line: a solver counterexample that the real,
natively compiled code reproduces.  Exit 2: anything else (timeout, unsupported construct, vacuous
harness, counterexample that does not replay)."""
import json, os, re, subprocess, sys, time, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(HERE, "target"))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402


def base_env(hdir):
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(JXL_VERIF_DIR=hdir, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg jxl_verif -Awarnings",
             CARGO_TERM_COLOR="never")
    return e


def log(*a):
    print(*a, flush=True)


def scan_harnesses():
    """name -> (file, hooked module), for every harness!(...) in hooks/<module>.<group>.rs."""
    out = {}
    for f in sorted(os.listdir(os.path.join(HARN, "hooks"))):
        if f.endswith(".rs"):
            txt = open(os.path.join(HARN, "hooks", f)).read()
            for m in re.finditer(r"\bharness!\(\s*([a-z0-9_]+)\s*,", txt):
                assert m.group(1) not in out, m.group(1)
                out[m.group(1)] = (f, f.split(".")[0])
    return out


def hook_points():
    """hooked module -> Rust module path, from the include! lines in /repo."""
    out = {}
    src = os.path.join(REPO, "jxl", "src")
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                for m in re.finditer(r'"/hooks/([a-z0-9_]+)\.rs"', open(p, errors="replace").read()):
                    rel = os.path.relpath(p, src)[:-3].split(os.sep)
                    if rel[-1] == "mod":
                        rel.pop()
                    out[m.group(1)] = "::".join(rel)
    return out


def abstract_error(full=False):
    """Payload-free stand-in for the crate's error enum under Kani, derived from the current error.rs: tuple and
    unit variants become associated functions/constants of one `Other` variant; the ones that the crate matches
    on (OutOfBounds) or builds with named fields stay real variants."""
    txt = open(os.path.join(REPO, "jxl/src/error.rs")).read()
    body = txt[txt.index("pub enum Error {") + len("pub enum Error {"):]
    depth, i = 1, 0
    while depth:
        c = body[i]
        if c == '"':
            i = body.index('"', i + 1)
        depth += (c == "{") - (c == "}")
        i += 1
    body = body[:i - 1]
    if full:
        return "#[derive(Error, Debug)]\n#[non_exhaustive]\npub enum Error {" + body + "}\n"
    body = re.sub(r'#\[error\((?:[^"\]]|"(?:[^"\\]|\\.)*")*\)\]', "", body)
    body = re.sub(r"//[^\n]*", "", body)
    keep = {"OutOfBounds"}
    for root, _, files in os.walk(os.path.join(REPO, "jxl/src")):
        for fn in files:
            if fn.endswith(".rs") and fn != "error.rs":
                t = open(os.path.join(root, fn), errors="replace").read().split("#[cfg(test)]")[0]
                for m in re.finditer(r"Error::\{([^}]*)\}", t):
                    keep.update(x.strip() for x in m.group(1).split(","))
                keep.update(re.findall(r"use [\w:]*Error::(\w+)", t))
                keep.update(re.findall(r"Error::(\w+)(?:\([^()]*\))?\)*\s*(?:=>|\|)", t))
                keep.update(re.findall(r"matches!\([^;]*?Error::(\w+)", t))
    real, assoc, froms = [], [], []
    for m in re.finditer(r"([A-Z]\w*)\s*(\((?:[^()]|\([^()]*\))*\)|\{[^}]*\})?\s*,", body):
        name, pl = m.group(1), m.group(2)
        if name in keep or (pl or "").startswith("{"):
            real.append(name + (pl or ""))
        elif pl is None:
            assoc.append(f"pub const {name}: Error = Error::Other;")
        else:
            inner = pl[1:-1]
            if "#[from]" in inner:
                inner = inner.replace("#[from]", "").strip()
                froms.append(f"impl From<{inner}> for Error {{ fn from(_: {inner}) -> Self {{ Error::Other }} }}")
            tys, d, cur = [], 0, ""
            for ch in inner:
                d += (ch in "(<") - (ch in ")>")
                if ch == "," and d == 0:
                    tys.append(cur)
                    cur = ""
                else:
                    cur += ch
            tys.append(cur)
            args = ", ".join(f"_{k}: {t.strip()}" for k, t in enumerate(t for t in tys if t.strip()))
            assoc.append(f"pub fn {name}({args}) -> Error {{ Error::Other }}")
    return ("#[derive(Debug)]\n#[allow(dead_code)]\npub enum Error { Other, " + ", ".join(real) + " }\n"
            "#[allow(non_upper_case_globals, non_snake_case, dead_code)]\nimpl Error {\n" + "\n".join(assoc) + "\n}\n"
            + "\n".join(froms) + "\nimpl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) "
            "-> std::fmt::Result { Ok(()) } }\nimpl std::error::Error for Error {}\n")


def prepare(group, full_error=False):
    """A harness directory for one group (e.g. c01): the files <module>.<group>.rs, and empty files for every
    other hooked module, so that a check depends only on the code it encodes."""
    d = os.path.join(TARGET, "h", group)
    os.makedirs(os.path.join(d, "hooks"), exist_ok=True)

    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    put(os.path.join(d, "error.rs"), abstract_error(full_error))
    put(os.path.join(d, "rt.rs"), open(os.path.join(HARN, "rt.rs")).read())
    for mod in hook_points():
        s = ""
        for g in (group, group + "x"):
            f = os.path.join(HARN, "hooks", f"{mod}.{g}.rs")
            if os.path.exists(f):
                s += open(f).read()
        put(os.path.join(d, "hooks", mod + ".rs"), s)
    return d


# ---------------------------------------------------------------- kani

def run_kani(hdir, names, flags, jobs, timeout, package="jxl", features=None):
    js = tempfile.mktemp(prefix="kani", suffix=".json")
    tdir = os.path.join(TARGET, "kani")
    cmd = ["cargo", "kani", "-p", package, "--no-default-features", "--target-dir", tdir,
           "-Z", "unstable-options", "-Z", "stubbing", "--export-json", js, "--harness-timeout", f"{timeout}s",
           "--no-assertion-reach-checks", "--keep-temps", "-j", str(jobs), "--output-format", "terse"]
    if features:
        cmd += ["--features", features]
    hs, hp = scan_harnesses(), hook_points()
    cmd.append("--exact")
    for n in names:
        f, mod = hs[n]
        cmd += ["--harness", f"{hp[mod]}::verif_{f.split('.')[1]}::{n}"]
    cmd += flags
    t0 = time.time()
    p = subprocess.run(cmd, cwd=REPO, env=base_env(hdir), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    data = None
    if os.path.exists(js):
        try:
            data = json.load(open(js))
        except Exception:
            pass
        os.unlink(js)
    return p.returncode, p.stdout, data, time.time() - t0


def harness_source(name):
    f = scan_harnesses()[name][0]
    txt = open(os.path.join(HARN, "hooks", f)).read()
    m = re.search(r"\bharness!\(\s*" + name + r"\s*,\s*unwind\s*=\s*(\d+)", txt)
    return int(m.group(1))


def solve_trace(goto, name, failing, timeout, cbmc_args=()):
    """Re-solves one failing query at a time with a model and yields (query, description, nondet values)."""
    cbmc = shutil.which("cbmc") or os.path.expanduser("~/.kani/kani-0.68.0/bin/cbmc")
    p = subprocess.run([cbmc, "--show-properties", "--json-ui", goto], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    props = next(x["properties"] for x in json.loads(p.stdout) if "properties" in x)
    # Prefer the harness' own assertions, then checks in the code under test.
    order = sorted(failing, key=lambda f: (f[1] != "assertion", "verif_" not in f[2]))
    done = 0
    for desc, cat, fn in order:
        ids = [q["name"] for q in props if q["description"].split("] ")[-1] == desc.split("] ")[-1]
               and (q["name"].startswith(fn + ".") or fn in ("", "unknown"))]
        for q in ids[:4]:
            if done >= 4:
                return
            done += 1
            cmd = [cbmc, "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
                   "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16", "--unwind",
                   str(harness_source(name)), *cbmc_args, "--sat-solver", "cadical", "--property", q, "--trace", "--json-ui", goto]
            if cat == "unwind":
                cmd.insert(1, "--unwinding-assertions")
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
                doc = json.loads(r.stdout)
            except Exception as e:
                log("  trace for", q, "not obtained:", type(e).__name__)
                continue
            for x in doc:
                for res in x.get("result", []) if isinstance(x, dict) else []:
                    if res.get("status") != "FAILURE" or "trace" not in res or res["property"] != q:
                        continue
                    vals = []
                    for t in res["trace"]:
                        if t.get("stepType") != "assignment":
                            continue
                        fnn = t.get("sourceLocation", {}).get("function", "")
                        if not fnn.startswith("kani::any_raw") or not t["lhs"].startswith("goto_symex$$return_value"):
                            continue
                        v = t.get("value", {})
                        if "elements" in v:
                            vs = [e["value"] for e in v["elements"]]
                        elif t["lhs"].endswith("]"):
                            continue
                        else:
                            vs = [v]
                        for e in vs:
                            n = int(e["binary"], 2)
                            vals.append(list(n.to_bytes(e["width"] // 8, "little")))
                    yield q, desc, vals


def short(h):
    return h.rsplit("::", 1)[-1]


# ---------------------------------------------------------------- native replay

def build_replay(profile, group):
    names = [n for n, (f, _) in scan_harnesses().items() if f.split(".")[1] == group]
    d = os.path.join(TARGET, "replay-src")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    decl = "\n".join(f"    fn {n}();" for n in sorted(names))
    arms = "\n".join(f'        "{n}" => unsafe {{ {n}() }},' for n in sorted(names))
    main = f'''extern crate jxl;
unsafe extern "Rust" {{
{decl}
}}
fn main() {{
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    let vals: Vec<Vec<u8>> = txt.lines().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
    jxl::verif_rt::load(vals);
    match a[1].as_str() {{
{arms}
        _ => std::process::exit(45),
    }}
    println!("REPLAY-COMPLETED");
}}
'''
    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    put(os.path.join(d, "src/main.rs"), main)
    put(os.path.join(d, "Cargo.toml"), f'''[package]
name = "replay"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
jxl = {{ path = "{REPO}/jxl", default-features = false }}
[profile.dev]
debug-assertions = true
overflow-checks = true
opt-level = 1
panic = "abort"
[profile.release]
panic = "abort"
''')
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    env = base_env(prepare(group))
    env["RUSTUP_TOOLCHAIN"] = "nightly" if profile in ("asan", "miri") else "stable"
    tdir = os.path.join(TARGET, "replay-" + profile)
    cmd = ["cargo", "build", "--target-dir", tdir]
    sub = "debug"
    if profile == "release":
        cmd += ["--release"]
        sub = "release"
    if profile == "asan":
        env["RUSTFLAGS"] += " -Zsanitizer=address"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/debug"
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log("replay build failed:", p.stdout[-3000:])
        return None
    return os.path.join(tdir, sub, "replay")


def replay_native(name, vals, profiles=("dev", "release", "asan")):
    """Returns (reproduced, list of outcome strings)."""
    f = tempfile.mktemp(prefix="cex", suffix=".txt")
    open(f, "w").write("\n".join(" ".join(map(str, v)) for v in vals) + "\n")
    outcomes, ok = [], False
    for prof in profiles:
        exe = build_replay(prof, scan_harnesses()[name][0].split(".")[1])
        if exe is None:
            outcomes.append(f"{prof}: build failed")
            continue
        try:
            p = subprocess.run([exe, name, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        except subprocess.TimeoutExpired:
            outcomes.append(f"{prof}: hang (>120 s)")
            ok = True
            break
        tail = p.stdout.strip().splitlines()
        if p.returncode in (43, 44, 45):
            outcomes.append(f"{prof}: replay mismatch rc={p.returncode}")
            break
        elif p.returncode != 0:
            msg = next((l for l in tail if "panicked" in l or "AddressSanitizer" in l), "")
            i = tail.index(msg) if msg in tail else 0
            outcomes.append(f"{prof}: rc={p.returncode} " + " | ".join(tail[i:i + 2]))
            ok = True
        else:
            outcomes.append(f"{prof}: completed without failure")
        if ok and prof != "dev":
            break
        if ok and prof == "dev":
            continue
    os.unlink(f)
    return ok, outcomes


# ---------------------------------------------------------------- engines

def engine_kani(pid, spec, tier, ev):
    """spec: dict(filter, flags, jobs, timeout[, timeout_thorough], package)"""
    allh = scan_harnesses()
    pre = spec["filter"]
    names = sorted(n for n in allh if n.startswith(pre))
    if tier == "quick" or "QUICK" in os.environ:
        names = [n for n in names if not n.endswith("_t")]
    ex = spec.get("exclude", ())
    names = [n for n in names if n not in ex]
    if not names:
        return "error", [f"no harness matches {pre}"]
    timeout = spec.get("timeout", 600) if tier == "quick" else spec.get("timeout_thorough", 5400)
    flags = spec.get("flags", [])
    groups = {allh[n][0].split(".")[1] for n in names}
    assert len(groups) == 1, groups
    rc, out, data, wall = run_kani(prepare(groups.pop()), names, flags, spec.get("jobs", 8), timeout,
                                   spec.get("package", "jxl"), spec.get("features"))
    if data is None:
        return "error", ["kani produced no result (build error?)", out[-4000:]]
    want = set(names)
    got, errors, failed = {}, [], []
    for r in data["verification_results"]["results"]:
        h = short(r["harness_id"])
        if h in want:
            got[h] = r
    stats = {short(c["harness_id"]): c.get("cbmc_stats") or {} for c in data.get("cbmc", [])}
    prop = {short(c["harness_id"]): c["property_details"] for c in data.get("property_details", [])}
    funcs = ev["functions"]
    for n in names:
        if n not in got:
            errors.append(f"{n}: not run")
            continue
        r = got[n]
        nchecks = len(r.get("checks", []))
        st = stats.get(n, {})
        h = {"harness": n, "status": r["status"], "queries": nchecks,
             "vccs": st.get("vccs_generated"), "solver_s": round(st.get("runtime_decision_procedure_s") or 0, 3),
             "symex_s": round(st.get("runtime_symex_s") or 0, 3), "wall_s": r.get("duration_ms", 0) / 1000,
             "program_steps": st.get("size_program_expression")}
        bad, unw, other = [], [], []
        covers = {}
        for c in r.get("checks", []):
            fn = c.get("function") or ""
            cat = c.get("category") or ""
            stt = (c.get("status") or "").upper()
            loc = c.get("location") or {}
            if isinstance(loc, dict):
                lf = loc.get("file") or ""
            else:
                lf = str(loc)
            if re.match(r"jxl[a-z_]*/", lf) and "verif" not in fn:
                funcs.add(f"{lf}::{fn}")
            if "cover" in cat or stt in ("SATISFIED", "UNSATISFIABLE"):
                # The compiler may duplicate a marker into several branches: one reachable copy suffices.
                k = (c.get("description"), json.dumps(loc, sort_keys=True))
                covers[k] = covers.get(k, False) or stt == "SATISFIED"
            elif stt == "FAILURE":
                if "unwind" in (c.get("description") or "") or cat == "unwind":
                    unw.append((c.get("description") or "", "unwind", fn))
                elif "unsupported" in cat or "not currently supported" in (c.get("description") or ""):
                    other.append(c.get("description"))
                else:
                    bad.append((c.get("description") or "", cat, fn))
        h["reachability_witnesses"] = len(covers)
        unsat_cover = [k[0] for k, v in covers.items() if not v]
        ev["harnesses"].append(h)
        ev["queries"] += nchecks
        ev["solver_s"] += h["solver_s"]
        if r["status"] == "Success":
            if unsat_cover:
                errors.append(f"{n}: vacuous, witness not reachable: {unsat_cover}")
            else:
                ev["discharged"] += nchecks
        elif bad:
            failed.append((n, bad))
        elif unw:
            failed.append((n, unw))
        else:
            errors.append(f"{n}: {r['status']} {other[:3]} (timeout, unsupported construct or solver error)")
    log(f"[{pid}] kani: {len(got)}/{len(names)} harnesses, wall {wall:.0f}s, "
        f"failed={[f[0] for f in failed]} errors={errors}")
    if failed:
        viol = []
        gotos = {short(h["pretty_name"]): re.sub(r"\.symtab\.out$", ".out", h["goto_file"])
                 for h in data["harness_metadata"]}
        for n, why in failed[:3]:
            log(f"[{pid}] counterexample candidate in {n}: {[w[0] + ' in ' + w[2] for w in why[:4]]}")
            for q, desc, vals in solve_trace(gotos[n], n, why, timeout, flags[flags.index("--cbmc-args") + 1:] if "--cbmc-args" in flags else ()):
                ok, outcomes = replay_native(n, vals)
                log(f"[{pid}]   replay of `{desc}` ({q}): {outcomes}")
                if ok:
                    viol.append(dict(property=pid, harness=n, check=desc, values=vals, native=outcomes))
                    break
            if viol:
                break
        if viol:
            return "violation", viol
        return "error", [f"counterexample for {[f[0] for f in failed]} did not replay natively"] + errors
    if errors:
        return "error", errors
    return "ok", []


ENGINES = {"kani": engine_kani}


def run_check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    ev = {"functions": set(), "harnesses": [], "queries": 0, "discharged": 0, "solver_s": 0.0}
    status, info = "ok", []
    for spec in P["engines"]:
        fn = ENGINES.get(spec["engine"])
        if fn is None:
            import importlib
            fn = importlib.import_module(spec["engine"]).run
        st, inf = fn(pid, spec, tier, ev)
        info += inf
        if st == "violation":
            status = "violation"
            break
        if st == "error":
            status = "error"
    cov = {
        "explanation": "Bounded symbolic execution of the real code; every query below was decided by the solver "
                       "for all values within the stated bounds. Bounds: " + P["bounds"] +
                       " Outside the bounds: " + P["outside"],
        "functions_encoded": sorted(ev["functions"]),
        "harnesses": ev["harnesses"],
        "queries": ev["queries"],
        "queries_discharged": ev["discharged"],
        "solver_s": round(ev["solver_s"], 2),
        "bounds": P["bounds"],
        "outside_bounds": P["outside"],
        "status": status,
    }
    doc = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
           "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
           "violations": 1 if status == "violation" else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    if status == "violation":
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", pid + ".json")
        json.dump(info[0], open(rp, "w"), indent=1)
        log(json.dumps({k: v for k, v in info[0].items() if k != "values"}))
        log(f"VIOLATION property={pid} replay={rp}")
        return 1
    if status == "error":
        for i in info:
            log("ERROR:", i)
        return 2
    log(f"OK property={pid} queries={ev['queries']} solver_s={ev['solver_s']:.1f} wall_s={doc['wall_s']}")
    return 0


def setup():
    for c in (["cargo", "kani", "--version"], ["cargo", "--version"], ["cargo", "+nightly", "--version"]):
        log(subprocess.check_output(c, text=True).strip())
    for g in sorted({f.split(".")[1] for f, _ in scan_harnesses().values()}):
        prepare(g)
    return 0


def main():
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        ok, outcomes = replay_native(r["harness"], r["values"])
        log(outcomes)
        sys.exit(1 if ok else 0)
    if sys.argv[1] == "--harness":
        ev = {"functions": set(), "harnesses": [], "queries": 0, "discharged": 0, "solver_s": 0.0}
        extra = sys.argv[3:]
        st, inf = engine_kani("dev", dict(filter=sys.argv[2], flags=extra, timeout_thorough=int(os.environ.get("TMO", "120"))), "thorough", ev)
        for h in ev["harnesses"]:
            log(h)
        log(st, *inf)
        sys.exit(0)
    sys.exit(run_check(sys.argv[1]))


if __name__ == "__main__":
    main()
