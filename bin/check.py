#!/usr/bin/env python3
"""Runs the solver-based check of one property.

  check.py C02 [--tier quick|thorough] [--only ENTRY] [--jobs N] [--keep]

Builds the executor and the harness (against /repo's working tree), symbolically executes the
property's entries, replays every counterexample on a native build of the same code, and writes
/verif/evidence/<id>.json.  Exit: 0 held, 1 violation (VIOLATION line), 2 the machinery failed."""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import spec  # noqa: E402

TOOL = "1.95"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
T0 = time.time()


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def die(msg):
    log("MACHINERY-ERROR:", msg)
    sys.exit(2)


def sh(cmd, env=None, cwd=None, timeout=850):
    return subprocess.run(cmd, env=env or ENV, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def build_engine():
    d = os.path.join(ROOT, "engine")
    r = sh(["cargo", "build", "--release", "--offline"], cwd=d)
    if r.returncode:
        raise RuntimeError("engine build failed\n" + r.stdout[-3000:])
    return os.path.join(d, "target/release/symx")


def flav_env(flav):
    e = dict(ENV)
    if "dbg" in flav:
        e["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "true"
        e["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = "true"
        e["CARGO_PROFILE_NAT_OVERFLOW_CHECKS"] = "true"
        e["CARGO_PROFILE_NAT_DEBUG_ASSERTIONS"] = "true"
    if "hook" in flav:
        e["RUSTFLAGS"] = "--cfg verif_hooks"
    return e


def feats(prop, flav):
    f = [prop.lower()]
    if "stream" in flav:
        f.append("stream")
    return f


def copy_tool():
    """rinklecate's sources as the library crate tool/, with an entry the harness can call"""
    src, dst = "/repo/rinklecate/src", os.path.join(ROOT, "tool", "src")
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            b = open(os.path.join(d, f), "rb").read()
            r = os.path.relpath(os.path.join(d, f), src)
            if r == "main.rs":
                b += b"\npub fn __verif_main() { main() }\n"
            want[r] = b
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in want:
                os.remove(os.path.join(d, f))
    for r, b in want.items():
        p = os.path.join(dst, r)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, "rb").read() != b:
            open(p, "wb").write(b)


def build_tool():
    """the real command-line tool, for the native replays"""
    td = os.path.join(ROOT, "target", "tool")
    r = sh(["cargo", "build", "--offline", "--manifest-path", "/repo/rinklecate/Cargo.toml", "--bin", "rinklecate"],
           env=dict(ENV, CARGO_TARGET_DIR=td), cwd="/repo")
    if r.returncode:
        raise RuntimeError("tool build failed\n" + r.stdout[-5000:])
    os.environ["VERIF_TOOL"] = td + "/debug/rinklecate"


def build_ir(prop, flav):
    td = os.path.join(ROOT, "target", "ir-" + flav)
    for f in glob.glob(td + "/release/deps/harness-*.ll"):
        os.remove(f)
    e = flav_env(flav)
    e["CARGO_TARGET_DIR"] = td
    r = sh(["cargo", "rustc", "--release", "--offline", "--features", ",".join(feats(prop, flav)), "--bin", "harness",
            "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "linker=/bin/true"],
           env=e, cwd=os.path.join(ROOT, "harness"))
    ll = glob.glob(td + "/release/deps/harness-*.ll")
    if r.returncode == 0 and not ll:
        # nothing changed since the last build of this flavour: force one
        os.utime(os.path.join(ROOT, "harness/src/main.rs"))
        return build_ir(prop, flav)
    if r.returncode or len(ll) != 1:
        raise RuntimeError("IR build failed\n" + r.stdout[-5000:])
    dst = os.path.join(ROOT, "target", f"{prop}-{flav}.ll")
    os.replace(ll[0], dst)
    return dst


def build_native(prop, flav):
    td = os.path.join(ROOT, "target", "nat-" + flav)
    e = flav_env(flav)
    e["CARGO_TARGET_DIR"] = td
    r = sh(["cargo", "build", "--profile", "nat", "--offline", "--features", ",".join(feats(prop, flav) + ["native"]),
            "--bin", "harness"], env=e, cwd=os.path.join(ROOT, "harness"))
    if r.returncode:
        raise RuntimeError("native build failed\n" + r.stdout[-5000:])
    dst = os.path.join(ROOT, "target", f"{prop}-{flav}-native")
    shutil.copy2(td + "/nat/harness", dst)
    return dst


def run_symx(symx, ll, run, outdir, jobs):
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    cmd = [symx, "--ll", ll, "--entry", run["entry"], "--args", run.get("cases", "0"), "--out", outdir, "--jobs", str(jobs),
           "--time", str(run.get("time", 120)), "--fuel", str(run.get("fuel", 400_000_000)), "--max-viol", str(run.get("max_viol", 60))]
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if r.returncode:
        raise RuntimeError(f"symx failed rc={r.returncode}: {r.stderr[-2000:]}")
    info = json.loads(r.stdout.strip().splitlines()[-1])
    m = dict(viol=[], samples=[], functions=set(), limits={}, covers={})
    for p in glob.glob(outdir + "/part-*.json"):
        d = json.load(open(p))
        for k, v in d.items():
            if k == "violations":
                m["viol"] += v
            elif k == "samples":
                m["samples"] += v
            elif k == "functions":
                m["functions"].update(v)
            elif k in ("limits", "covers"):
                for a, b in v.items():
                    m[k][a] = m[k].get(a, 0) + b
            elif k.startswith("max_"):
                m[k] = max(m.get(k, 0), v)
            else:
                m[k] = m.get(k, 0) + v
    m["wall_ms"] = info["wall_ms"]
    m["dead"] = info["dead"]
    m["t"] = time.time() - t
    m["stderr"] = r.stderr[-1500:]
    return m


def write_replay(path, run, v):
    with open(path, "w") as f:
        f.write(f"# entry {run['entry']} case {v['case']} flavour {run['flav']}\n# {v['kind']}: {v['msg']}\n".replace("\n# ", "\n# "))
        for n, b, x in v["inputs"]:
            f.write(f"{b} {x} {n}\n")


def clean(s):
    return s.replace("\n", "\\n")


def native(binp, run, v, path, timeout=25):
    """-> (outcome, detail, notes)"""
    try:
        r = subprocess.run([binp, run["entry"], str(v["case"]), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace",
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (6 << 30, 6 << 30)))
    except subprocess.TimeoutExpired:
        return "hang", "", ""
    out = r.stdout
    if r.returncode == 10:
        return "assert", out[out.find("ASSERT-FAILED ") + 14:].strip(), out
    if r.returncode == 11:
        return "panic", out[out.find("PANIC "):].strip()[:400], out
    if r.returncode in (20, 21):
        return "diverged", out[-300:], out
    if r.returncode < 0 or r.returncode in (134, 139):
        return "crash", f"signal {r.returncode} {r.stderr[-300:]}", out
    if r.returncode == 0:
        return "ok", "", out
    return "crash", f"rc {r.returncode} {r.stderr[-300:]}", out


OKMAP = {"assert": {"assert"}, "panic": {"panic", "crash"}, "hang": {"hang", "crash"}, "stack-overflow": {"crash", "hang"},
         "memory-fault": {"crash", "panic"}, "unreachable": {"crash", "panic"}, "huge-allocation": {"crash", "panic"},
         "double-free": {"crash"}, "div-by-zero": {"crash", "panic"}}


def signature(run, v):
    msg = re.sub(r"\d+", "N", v["msg"].split("\n")[0])[:120] if v["kind"] != "assert" else v["msg"].split(":")[0][:120]
    return (run["entry"], run["flav"], v["kind"], msg)


def known(prop, run, v):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return None
    for k in json.load(open(p))["findings"]:
        if k.get("status") == "fixed" or k["property"] != prop or k["entry"] != run["entry"] or k["kind"] != v["kind"]:
            continue
        if "cases" in k and v["case"] not in k["cases"]:
            continue
        if "inputs" in k and not all(any(re.fullmatch(a, n) and str(x) in map(str, vals) for n, _, x in v["inputs"]) for a, vals in k["inputs"].items()):
            continue
        if re.search(k["match"], v["msg"] + "\n" + "\n".join(v.get("notes", []))):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--cases")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = [dict(r) for r in spec.runs(prop, tier)]
    if a.only:
        runs = [r for r in runs if r["entry"] in a.only.split(",")]
    if a.cases:
        for r in runs:
            r["cases"] = a.cases
    for r in runs:
        r.setdefault("flav", "rel")
    flavs = sorted({r["flav"] for r in runs})
    os.makedirs(os.path.join(ROOT, "target"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rep_dir = os.path.join(ROOT, "work", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    log(f"{prop} tier={tier} flavours={flavs}")
    try:
        copy_tool()
        with cf.ThreadPoolExecutor(8) as ex:
            ft = ex.submit(build_tool) if prop == "C20" and not a.no_native else None
            fe = ex.submit(build_engine)
            fi = {f: ex.submit(build_ir, prop, f) for f in flavs}
            fn = {} if a.no_native else {f: ex.submit(build_native, prop, f) for f in flavs}
            symx = fe.result()
            lls = {f: x.result() for f, x in fi.items()}
            nats = {f: x.result() for f, x in fn.items()}
            if ft:
                ft.result()
    except Exception as e:  # noqa: BLE001
        die(str(e))
    log("built")
    tot = dict(paths=0, steps=0, forks=0, queries=0, cache_hits=0, solver_us=0, unknown=0, sat=0, unsat=0, asserts=0,
               asserts_sym=0, sym_branches=0, concretizations=0, infeasible=0, vars=0, pending=0, max_constraints=0)
    functions, evruns, bad, findings, samples_ev = set(), [], [], [], []
    errors, validated = [], 0
    for i, run in enumerate(runs):
        m = run_symx(symx, lls[run["flav"]], run, os.path.join(ROOT, "work", "parts"), a.jobs)
        if m["dead"]:
            errors.append(f"{run['entry']}: {m['dead']} workers died: {m['stderr']}")
        for k in tot:
            tot[k] = max(tot[k], m.get(k, 0)) if k.startswith("max_") else tot[k] + m.get(k, 0)
        functions |= {f"{run['flav']}:{f}" for f in m["functions"]}
        complete = not m["limits"] and not m.get("pending")
        log(f"{run['entry']}[{run.get('cases','0')}] {run['flav']}: {m.get('paths')} paths, {m.get('steps',0)/1e6:.1f}M instr, "
            f"{m.get('queries')} queries {m.get('solver_us',0)/1e6:.1f}s solver, {m['t']:.1f}s wall, viol {len(m['viol'])}, "
            f"limits {m['limits']} pending {m.get('pending')} covers {m['covers']}")
        for c in run.get("covers", []):
            if not m["covers"].get(c):
                errors.append(f"{run['entry']}: reachability witness '{c}' was not reached")
        if not m.get("paths"):
            errors.append(f"{run['entry']}: no path completed")
        if run.get("complete") and not complete:
            errors.append(f"{run['entry']}: exploration incomplete: {m['limits']} pending {m.get('pending')}")
        evruns.append(dict(entry=run["entry"], cases=run.get("cases", "0"), build=run["flav"], bounds=spec.bounds(run),
                           paths=m.get("paths", 0), infeasible=m.get("infeasible", 0), instructions=m.get("steps", 0),
                           assertions=m.get("asserts", 0), queries=m.get("queries", 0), solver_s=round(m.get("solver_us", 0) / 1e6, 2),
                           symbolic_inputs=m.get("vars", 0), complete=complete, limits=m["limits"], pending=m.get("pending", 0),
                           reached=m["covers"], wall_s=round(m["t"], 2)))
        # replay
        groups = {}
        for v in m["viol"]:
            k = known(prop, run, v)
            groups.setdefault((signature(run, v), k["id"] if k else None), []).append((v, k))
        for gi, ((sig, kid), vs) in enumerate(sorted(groups.items(), key=lambda x: str(x[0]))):
            ok = False
            shown = None
            for ti, (v, k) in enumerate(vs[:4]):
                p = os.path.join(rep_dir, f"{prop}-{i}-{gi}-{ti}.txt")
                write_replay(p, run, v)
                if a.no_native:
                    ok, shown = True, (v, p, "not replayed")
                    break
                for _ in range(run.get("replays", 1)):
                    oc, det, _o = native(nats[run["flav"]], run, v, p)
                    if oc in OKMAP.get(v["kind"], set()):
                        ok, shown = True, (v, p, f"{oc}: {det}")
                        break
                if ok:
                    break
                shown = (v, p, f"native outcome {oc} {det}")
            v, p, det = shown
            n = sum(x[0]["count"] for x in vs)
            cs = sorted({x[0]["case"] for x in vs})
            desc = f"{run['entry']} case {v['case']} {run['flav']}: {v['kind']}: {clean(v['msg'])[:300]}"
            if not ok:
                errors.append(f"counterexample did not reproduce natively: {desc} [{det}] inputs={v['inputs']} replay={p}")
            elif kid:
                findings.append((kid, vs[0][1], desc))
            else:
                bad.append((desc + (f" (cases {cs})" if len(cs) > 1 else ""), p, det, n, v))
        # translator validation on ordinary paths
        if not a.no_native:
            ss = sorted(m["samples"], key=lambda s: (len(s["notes"]), str(s["inputs"])))
            step = max(1, len(ss) // run.get("validate", 6))
            for si, s in enumerate(ss[::step][: run.get("validate", 6)]):
                p = os.path.join(rep_dir, f"{prop}-{i}-s{si}.txt")
                write_replay(p, run, s)
                oc, det, out = native(nats[run["flav"]], run, s, p)
                notes = "".join(f"note: {n}\n" for n in s["notes"])
                if oc == "ok" and out.replace("FINISHED\n", "") == notes:
                    validated += 1
                    if len(samples_ev) < 8:
                        samples_ev.append(dict(entry=run["entry"], case=s["case"], inputs=s["inputs"][:40], notes=[n[:400] for n in s["notes"][:6]]))
                elif oc == "ok" and run.get("notes_vary"):
                    validated += 1
                else:
                    errors.append(f"translator validation: {run['entry']} case {s['case']} inputs {s['inputs']} native {oc} {det}\n--- native\n{out[-1500:]}\n--- engine\n{notes[-1500:]}")
                os.remove(p)
        if bad and tier == "quick" and not a.keep:
            log("stopping at the first entry with a violation (--keep goes on)")
            break
    seenk = set()
    for kid, k, desc in findings:
        if kid not in seenk:
            seenk.add(kid)
            print(f"KNOWN-FINDING: property={prop} {k['what']} ({kid})", flush=True)
    for d, p, det, n, v in bad:
        log("violation:", d, f"[x{n}]", "native:", clean(det)[:300])
        for nn in v["notes"][-6:]:
            log("    note:", clean(nn)[:500])
        log("    inputs:", v["inputs"][:60])
        print(f"VIOLATION property={prop} replay={p}", flush=True)
    pats = spec.REPO_FUNCS
    rf = sorted({re.sub(r"::h[0-9a-f]{16}$", "", f.split(":", 1)[1]) for f in functions if any(x in f for x in pats)})
    cov = dict(states=tot["paths"], transitions=tot["steps"], traces_validated_against_impl=validated, samples=samples_ev,
               exhaustive=all(r["complete"] for r in evruns) and not errors,
               what="states = paths through the code (each one decided by the solver for all values of its symbolic inputs); transitions = LLVM IR instructions executed symbolically",
               infeasible_branches_pruned=tot["infeasible"], symbolic_branches=tot["sym_branches"], forks=tot["forks"],
               assertions=tot["asserts"], assertions_symbolic=tot["asserts_sym"], symbolic_inputs=tot["vars"],
               queries=tot["queries"], query_cache_hits=tot["cache_hits"], queries_sat=tot["sat"], queries_unsat=tot["unsat"],
               queries_unknown=tot["unknown"], solver_s=round(tot["solver_us"] / 1e6, 2), max_path_constraints=tot["max_constraints"],
               concretizations=tot["concretizations"],
               functions_encoded=len(functions), repo_functions_encoded=len(rf), repo_functions=rf[:400],
               runs=evruns, known_findings=sorted(seenk), outside=spec.OUTSIDE.get(prop, ""))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=spec.assumptions(prop),
              wall_s=round(time.time() - T0, 1), violations=len(bad))
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if bad:
        log(f"{len(bad)} violation(s)")
        for e in errors:
            log("also:", e[:600])
        sys.exit(1)
    if errors:
        for e in errors:
            log("MACHINERY-ERROR:", e[:4000])
        sys.exit(2)
    log(f"{prop} held: {tot['paths']} paths, {tot['queries']} queries, {validated} native validations")
    sys.exit(0)


if __name__ == "__main__":
    main()
