#!/usr/bin/env python3
"""Decide one property:  check.py ID [--tier quick|thorough] [--keep]

Builds the engine and the harness from /repo's current tree, lowers the harness and everything it
calls in /repo to LLVM IR, runs the symbolic engine on each harness entry of the property, replays
every counterexample natively and validates sampled path witnesses against the native build.
Exit 0: property held on everything explored (evidence says whether that was everything within the bounds:
coverage.exhaustive and coverage.problems; INCOMPLETE lines name what was left).
Exit 1 + VIOLATION line: violation, reproduced natively.
Exit 2: nothing can be said (build failure, no engine report, the encoding disagrees with the native build).
"""
import fcntl, glob, json, os, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from props import PROPS, COMMON_MERGE, COMMON_ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def log(*a):
    print(*a, flush=True)


def die(msg, code=2):
    log("ERROR: " + msg)
    sys.exit(code)


def sh(cmd, **kw):
    env = dict(ENV)
    env.update(kw.pop("env", {}))
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **kw)
    return p.returncode, p.stdout


def sysroot_bin():
    rc, o = sh(["rustc", "--print", "sysroot"])
    return os.path.join(o.strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build_engine():
    rc, o = sh(["cargo", "build", "--release", "--offline"], cwd=f"{V}/engine",
               env={"CARGO_TARGET_DIR": f"{BUILD}/engine"})
    if rc:
        raise RuntimeError("engine build failed:\n" + o[-3000:])
    return f"{BUILD}/engine/release/symll"


def build_bitcode():
    tgt = f"{BUILD}/bitcode"
    for f in glob.glob(f"{tgt}/debug/deps/harness*"):
        os.remove(f)
    for d in glob.glob(f"{tgt}/debug/.fingerprint/harness-*"):
        shutil.rmtree(d)
    rc, o = sh(["cargo", "rustc", "--offline", "--lib", "--crate-type", "cdylib", "--",
                "-C", "save-temps", "-C", "no-prepopulate-passes", "-C", "linker=/bin/true"],
               cwd=f"{V}/harness", env={"CARGO_TARGET_DIR": tgt})
    bc = glob.glob(f"{tgt}/debug/deps/harness*lto.input.bc")
    if rc or len(bc) != 1:
        raise RuntimeError(f"bitcode build failed (rc {rc}, {len(bc)} modules):\n" + o[-3000:])
    return bc[0]


def build_replay():
    rc, o = sh(["cargo", "build", "--offline", "--profile", "replay", "--bin", "replay"],
               cwd=f"{V}/harness", env={"CARGO_TARGET_DIR": f"{BUILD}/replay"})
    if rc:
        raise RuntimeError("replay build failed:\n" + o[-3000:])
    return f"{BUILD}/replay/replay/replay"


SQLITE_FLAGS = """-DSQLITE_CORE -DSQLITE_DEFAULT_FOREIGN_KEYS=1 -DSQLITE_ENABLE_API_ARMOR -DSQLITE_ENABLE_COLUMN_METADATA
 -DSQLITE_ENABLE_MEMORY_MANAGEMENT -DSQLITE_THREADSAFE=1 -DSQLITE_USE_URI -DHAVE_USLEEP=1 -DHAVE_ISNAN -DLONGDOUBLE_TYPE=double
 -DSQLITE_OMIT_LOAD_EXTENSION -DSQLITE_MAX_MMAP_SIZE=0 -DSQLITE_OMIT_WAL""".split()


def build_sqlite():
    """SQLite (the source the libsqlite3-sys crate ships) and the model of the file system, as bitcode."""
    d = f"{BUILD}/sqlite"
    os.makedirs(d, exist_ok=True)
    p = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=f"{V}/harness", env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    src = [os.path.dirname(x["manifest_path"]) + "/sqlite3" for x in json.loads(p.stdout or '{"packages":[]}')["packages"] if x["name"] == "libsqlite3-sys"]
    if len(src) != 1 or not os.path.exists(f"{src[0]}/sqlite3.c"):
        raise RuntimeError("no SQLite source: " + p.stderr[-500:])
    rc, o = sh(["clang-18", "-O1", "-fno-builtin", "-Xclang", "-disable-llvm-passes", "-c", "-emit-llvm", "-w", f"{V}/harness/sqlite/models.c", "-o", f"{d}/models.bc"])
    if not rc and not os.path.exists(f"{d}/sqlite.bc"):
        rc, o = sh(["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-c", "-emit-llvm", "-w", f"-I{src[0]}", *SQLITE_FLAGS, f"{src[0]}/sqlite3.c", "-o", f"{d}/sqlite.tmp"])
        if not rc:
            os.rename(f"{d}/sqlite.tmp", f"{d}/sqlite.bc")
    if rc:
        raise RuntimeError("sqlite build failed: " + o[-2000:])
    rc, o = sh([f"{sysroot_bin()}/llvm-nm", f"{d}/models.bc"])
    keep = [x.split()[2] for x in o.split("\n") if len(x.split()) == 3 and x.split()[1] == "T"]
    return [f"{d}/sqlite.bc", f"{d}/models.bc"], keep


def lower(pid, bc, engine, entries, extra_keep, link):
    b = sysroot_bin()
    d = f"{BUILD}/ll/{pid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = bc
    keep = ",".join(sorted(set(entries)) + extra_keep)
    if link:
        rc, o = sh([f"{b}/opt", "-passes=internalize,globaldce,strip-dead-prototypes",
                    f"-internalize-public-api-list={','.join(sorted(set(entries)))}", bc, "-o", f"{d}/r.bc"])
        if rc:
            raise RuntimeError("opt failed: " + o[-2000:])
        rc, o = sh([f"{b}/llvm-link", f"{d}/r.bc", *link, "-o", f"{d}/l.bc"])
        if rc:
            raise RuntimeError("llvm-link failed: " + o[-2000:])
        src = f"{d}/l.bc"
    steps = [
        [f"{b}/opt", "-passes=internalize,globaldce,strip-dead-prototypes",
         f"-internalize-public-api-list={keep}", src, "-S", "-o", f"{d}/a.ll"],
        [engine, "prep", f"{d}/a.ll", f"{V}/harness/rules.txt", f"{d}/b.ll"],
        [f"{b}/opt", "-passes=globaldce,default<O1>,globaldce,strip-dead-prototypes", f"{d}/b.ll", "-S", "-o", f"{d}/c.ll"],
    ]
    for s in steps:
        rc, o = sh(s)
        if rc:
            raise RuntimeError(f"{s[0]} failed: " + o[-2000:])
    for f in ("a.ll", "b.ll", "r.bc", "l.bc"):
        if os.path.exists(f"{d}/{f}"):
            os.remove(f"{d}/{f}")
    return f"{d}/c.ll"


def inputs_arg(inp):
    return ",".join(f"{w}:{v}" for w, v in inp) or "-"


def replay(binary, entry, params, inp, timeout=120):
    scratch = subprocess.run(["mktemp", "-d", f"{BUILD}/scratch.XXXXXX"], stdout=subprocess.PIPE, text=True).stdout.strip()

    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([binary, entry, ",".join(map(str, params)) or "-", inputs_arg(inp)], cwd=scratch, env={"PATH": "/usr/bin:/bin"},
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=lim)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def show_inputs(inp):
    s = "".join(chr(int(v)) if 32 <= int(v) < 127 else f"\\x{int(v):x}" for w, v in inp if w == 8)
    return s


def main():
    args = sys.argv[1:]
    tier = "quick"
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    only = None
    if "--entry" in args:
        i = args.index("--entry")
        only = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{BUILD}/replays", exist_ok=True)
    ev_path = f"{V}/evidence/{pid}.json"
    if os.path.exists(ev_path):
        os.remove(ev_path)
    runs = [r for r in prop["runs"] if tier in r.get("tiers", ("quick", "thorough")) and (only is None or r["entry"] == only)]
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            shutil.copy("/opt/vp/Cargo.lock", f"{V}/harness/Cargo.lock") if not os.path.exists(f"{V}/harness/Cargo.lock") else None
            with ThreadPoolExecutor(4) as ex:
                fe, fb, fr = ex.submit(build_engine), ex.submit(build_bitcode), ex.submit(build_replay)
                fs = ex.submit(build_sqlite) if prop.get("sqlite") else None
                engine, bc, rep = fe.result(), fb.result(), fr.result()
                link, keep = fs.result() if fs else ([], [])
            ll = lower(pid, bc, engine, [r["entry"] for r in runs], keep, link)
        except RuntimeError as e:
            die(str(e))
    t_build = time.time() - t0
    log(f"[{pid}] built engine, IR and replay binary from /repo in {t_build:.1f}s")

    tot = dict(paths_ok=0, paths_assume=0, paths_violation=0, paths_error=0, steps=0, forks=0, merges=0, queries=0, sat=0, unsat=0,
               unknown=0, solver_us=0, branch_unary=0, asserts_symbolic=0, asserts_concrete=0)
    functions, merged, samples_out, run_out = set(), set(), [], []
    problems, broken, violations = [], [], []
    validated = mismatches = 0
    budget = {"quick": 560, "thorough": 6 * 3600}[tier]
    for ri, r in enumerate(runs):
        entry = r["entry"]
        params = r.get(tier, r.get("params", []))
        left = budget - (time.time() - t0 - t_build)
        if left < 20:
            problems.append(f"{entry}: no time left")
            break
        if tier == "quick":
            left = max(40, min(left, r.get("limit", 260), left - 30 * (len(runs) - ri - 1)))
        out = f"{BUILD}/ll/{pid}/out.{entry}"
        for f in glob.glob(out + ".*"):
            os.remove(f)
        cmd = [engine, "--ll", ll, "--entry", entry, "--out", out, "--jobs", str(r.get("jobs", 8)), "--timeout", str(int(left)),
               "--split", str(r.get("split", 32))]
        for p in params:
            cmd += ["--param", str(p)]
        for m in COMMON_MERGE + r.get("merge", []):
            cmd += ["--merge", m]
        te = time.time()
        rc, o = sh(cmd)
        te = time.time() - te
        if rc:
            problems.append(f"{entry}: engine exit {rc}: {o[-600:]}")
        covers = {}
        reps = []
        for f in sorted(glob.glob(out + ".*")):
            try:
                reps.append(json.load(open(f)))
            except ValueError as e:
                problems.append(f"{entry}: unreadable engine report {f}: {e}")
        if not reps:
            broken.append(f"{entry}: no engine report")
            continue
        ent = {k: 0 for k in tot}
        cand, smp, opened = [], [], []
        for d in reps:
            for k in tot:
                ent[k] += d[k]
            for k, v in d["covers"].items():
                covers[int(k)] = covers.get(int(k), 0) + v
            functions.update(d["functions"])
            merged.update(d["merged"])
            cand += d["violations"]
            smp += d["samples"]
            opened += d["open"]
            if d["timed_out"]:
                problems.append(f"{entry}: exploration timed out")
            if d["left"]:
                problems.append(f"{entry}: {d['left']} states unexplored") if not d["violations"] else None
            for m, c in d["errors"].items():
                problems.append(f"{entry}: engine error x{c}: {m}")
        for k in tot:
            tot[k] += ent[k]
        if ent["unknown"]:
            problems.append(f"{entry}: {ent['unknown']} solver unknowns")
        # counterexamples: replay natively
        seen = set()
        for v in cand:
            key = (v["kind"], v["msg"])
            if key in seen and len(seen) > 12:
                continue
            seen.add(key)
            rc2, so, se = replay(rep, entry, params, v["inputs"])
            if v["kind"] == "assert":
                ok = rc2 == 10 and f"ASSERT {v['msg'].split()[-1]}" in so
            else:
                ok = rc2 not in (0, 10, 11, 12, 13, 124)
            n = len(violations)
            path = f"{BUILD}/replays/{pid}-{entry}-{n}.json"
            rec = dict(property=pid, entry=entry, params=params, kind=v["kind"], msg=v["msg"], inputs=v["inputs"], text=show_inputs(v["inputs"]),
                       stack=v["stack"][:12], native_exit=rc2, native_stdout=so[-2000:], native_stderr=se[-2000:],
                       replay_cmd=f"{rep} {entry} {','.join(map(str, params)) or '-'} {inputs_arg(v['inputs'])}")
            if ok:
                json.dump(rec, open(path, "w"), indent=1)
                violations.append((path, rec))
            else:
                json.dump(rec, open(path + ".unconfirmed", "w"), indent=1)
                problems.append(f"{entry}: model does not reproduce natively ({v['kind']} {v['msg']}, native exit {rc2}): {path}.unconfirmed")
        # paths the engine did not follow to their end: the solver's model of each is run natively
        opened = opened[:: max(1, len(opened) // 96)][:96] if not violations else []
        with ThreadPoolExecutor(8) as ex:
            tried = list(ex.map(lambda v: (v, replay(rep, entry, params, v["inputs"], 60 if v["msg"] == "step limit" else 20)), opened))
        for v, (rc2, so, se) in tried:
            kind = "assert" if rc2 == 10 else "hang" if rc2 == 124 and v["msg"] == "step limit" else "panic" if rc2 not in (0, 10, 11, 12, 13, 124) else None
            if kind:
                path = f"{BUILD}/replays/{pid}-{entry}-{len(violations)}.json"
                rec = dict(property=pid, entry=entry, params=params, kind=kind, msg=so[-200:].strip().split("\n")[-1] if kind == "assert" else kind, inputs=v["inputs"],
                           text=show_inputs(v["inputs"]), stack=[], native_exit=rc2, native_stdout=so[-2000:], native_stderr=se[-2000:],
                           replay_cmd=f"{rep} {entry} {','.join(map(str, params)) or '-'} {inputs_arg(v['inputs'])}")
                json.dump(rec, open(path, "w"), indent=1)
                violations.append((path, rec))
                if len(violations) > 4:
                    break
        complete = not rc and not any(d["timed_out"] or d["left"] or d["errors"] for d in reps)
        # vacuity
        if not ent["paths_ok"] and not violations:
            broken.append(f"{entry}: no path was followed to its end")
        if not cand and complete:
            for c in r.get("covers", [1]):
                if not covers.get(c):
                    broken.append(f"{entry}: coverage point {c} never reached")
        # sampled path witnesses against the native build
        k = r.get("validate", 24)
        smp = smp[:: max(1, len(smp) // k)][:k]

        def val(s):
            return s, replay(rep, entry, params, s["inputs"])
        with ThreadPoolExecutor(8) as ex:
            for s, (rc2, so, se) in ex.map(val, smp):
                exp = "OBS " + s["obs"]
                if rc2 == 0 and exp in so.split("\n") and "INPUT-EXHAUSTED" not in so:
                    validated += 1
                    if len(samples_out) < 40:
                        samples_out.append(dict(entry=entry, inputs=inputs_arg(s["inputs"]), text=show_inputs(s["inputs"]), observed=s["obs"][:200]))
                else:
                    mismatches += 1
                    broken.append(f"{entry}: native run disagrees with the encoding on {inputs_arg(s['inputs'])} (exit {rc2}, want {exp[:120]}, got {so[-200:]} {se[-200:]})")
        run_out.append(dict(entry=entry, params=params, bound=r.get("bound", ""), paths=ent["paths_ok"], pruned_by_assumption=ent["paths_assume"],
                            forks=ent["forks"], merges=ent["merges"], solver_queries=ent["queries"], solver_sat=ent["sat"], solver_unsat=ent["unsat"],
                            solver_s=round(ent["solver_us"] / 1e6, 2), byte_domain_decisions=ent["branch_unary"], assertions_symbolic=ent["asserts_symbolic"],
                            assertions_on_constants=ent["asserts_concrete"], instructions=ent["steps"], covers={str(k): v for k, v in sorted(covers.items())},
                            wall_s=round(te, 1)))
        log(f"[{pid}] {entry}{params}: {ent['paths_ok']} paths, {ent['queries']} queries ({ent['solver_us']/1e6:.1f}s), {len(cand)} counterexamples, covers {dict(sorted(covers.items()))}, {te:.1f}s")
        if violations:
            break
    repo_functions = sorted(f for f in functions if "i18n_" in f.split("::")[0] or any(x in f for x in ("i18n_lexer", "i18n_utility", "i18n_localiser", "i18n_provider")))
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=tot["paths_ok"] + tot["paths_assume"] + tot["paths_violation"], transitions=tot["steps"],
            traces_validated_against_impl=validated, samples=samples_out,
            meaning="states = complete symbolic paths (each stands for all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically",
            runs=run_out, queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], solver_time_s=round(tot["solver_us"] / 1e6, 2),
            solver="Z3 (QF_BV)", functions_encoded=len(functions), repo_functions_encoded=repo_functions[:400],
            merged_functions=sorted(merged), exhaustive=not problems and not broken and not violations,
            known_findings=[], problems=(broken + problems)[:20]),
        assumptions=COMMON_ASSUMPTIONS + prop.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=len(violations))
    code = 0
    for kf in prop.get("known", []):
        rc2, so, se = replay(rep, kf["entry"], kf.get("params", []), kf["inputs"])
        if rc2 == 10 or rc2 not in (0, 11, 12, 13, 124):
            log(f"KNOWN-FINDING: property={pid} {kf['what']}")
            ev["coverage"]["known_findings"].append(kf["what"])
    json.dump(ev, open(ev_path, "w"), indent=1)
    for path, rec in violations:
        log(f"VIOLATION property={pid} replay={path}")
        log(f"   {rec['entry']}: {rec['kind']} {rec['msg']} inputs {rec['text']!r}")
        code = 1
    if not code:
        for p in problems[:20]:
            log("INCOMPLETE: " + p)
        for p in broken[:20]:
            log("UNDECIDED: " + p)
        code = 2 if broken else 0
    log(f"[{pid}] {'VIOLATED' if code == 1 else 'undecided' if code else 'holds within bounds' if not problems else 'holds on everything explored (incomplete)'}: {tot['paths_ok']} paths, {tot['queries']} solver queries, "
        f"{validated} witnesses validated natively, {time.time()-t0:.1f}s")
    if not os.environ.get("SYMLL_KEEP"):
        shutil.rmtree(f"{BUILD}/ll/{pid}", ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
