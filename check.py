#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Builds the harness over /repo's working tree to WebAssembly, runs the symbolic
executor on the jobs listed for the property in spec.py, replays what it
reports against a native build of the same code, and writes
evidence/PROPERTY.json.  Exit 0: held.  Exit 1: VIOLATION.  Exit 2: no answer.
"""
import argparse, concurrent.futures as cf, fcntl, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec

T = os.environ.get("VERIF_TARGET") or HERE + "/target"
ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENV.update(
    CARGO_NET_OFFLINE="true",
    RUSTUP_TOOLCHAIN="1.99.0-x86_64-unknown-linux-gnu",
    CARGO_INCREMENTAL="0",
    CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="",
)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
ENGINE = T + "/engine/release/wsym"
# the crates with harnesses: folder -> (target folders' prefix, library)
CRATES = {"harness": ("", "harness"), "css": ("css-", "harness_css")}
WASM = REPLAY = None


def use(crate):
    global WASM, REPLAY
    pre, lib = CRATES[crate]
    WASM = f"{T}/{pre}wasm/wasm32-unknown-unknown/sym/{lib}.wasm"
    REPLAY = f"{T}/{pre}native/debug/replay"


def say(*a):
    print(*a, flush=True)


def no_answer(msg):
    say("ERROR: " + msg)
    sys.exit(2)


def build(crates):
    def cargo(name, args, cwd, flags=None):
        e = dict(ENV, CARGO_TARGET_DIR=f"{T}/{name}")
        if flags:
            e["RUSTFLAGS"] = flags
        r = subprocess.run(["cargo", "build", "--offline", "--locked"] + args, cwd=cwd, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, r.returncode, r.stdout

    with cf.ThreadPoolExecutor(5) as p:
        js = [p.submit(cargo, "engine", ["--release"], HERE + "/engine")]
        for c in crates:
            pre = CRATES[c][0]
            js += [
                p.submit(cargo, pre + "wasm", ["--profile", "sym", "--lib", "--target", "wasm32-unknown-unknown"],
                         f"{HERE}/{c}", "-C link-arg=-zstack-size=262144 -C link-arg=--export=__heap_base"),
                p.submit(cargo, pre + "native", ["--bin", "replay"], f"{HERE}/{c}"),
            ]
        for j in js:
            n, rc, out = j.result()
            if rc:
                say(out[-6000:])
                no_answer(f"building {n} failed")


def native(entry, args, inputs, prop, timeout=20):
    """Runs the real code natively with recorded inputs; returns (outcome, log, msg)."""
    cmd = [REPLAY, entry, ",".join(map(str, args)), ",".join(map(str, inputs))]
    try:
        r = subprocess.run(cmd, env=dict(ENV, ND_ONLY=prop, RUST_BACKTRACE="0"),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", [], f"does not end within {timeout} s"
    if r.returncode < 0:
        return "crash", [], f"killed by signal {-r.returncode}: " + r.stderr.decode(errors="replace")[-300:]
    try:
        d = json.loads(r.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return "broken", [], r.stderr.decode(errors="replace")[-300:]
    return d["outcome"], d["log"], d["msg"]


BAD = ("check", "panic", "crash", "hang")


def known_findings(prop):
    out = []
    p = HERE + "/known_findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--threads", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--setup", action="store_true", help="only build")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(T, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    lock = open(T + "/.check-lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a.setup:
        build(list(CRATES))
        return 0
    prop = a.property
    if prop not in spec.P:
        no_answer("unknown property " + prop)
    P = spec.P[prop]
    crate = P.get("crate", "harness")
    use(crate)
    build([crate])
    seed = int(os.environ.get("VERIF_SEED") or 1)
    jobs = P[a.tier] if a.tier in P else P["quick"]
    budget = 780 if a.tier == "quick" else 6 * 3600
    known = known_findings(prop)
    tot = dict(paths=0, forks=0, instrs=0, sat=0, unsat=0, cached=0, checks_symbolic=0, checks_concrete=0,
               concretized=0, solver_ms=0.0, infeasible=0, panic_paths=0)
    fns, samples, runs, violations, problems = set(), [], [], [], []
    validated = 0
    max_q = 0.0
    tb = time.time() - t0
    for j in jobs:
        entry, args, covers = j["entry"], j["args"], j["covers"]
        left = budget - (time.time() - t0)
        if left < 5:
            no_answer(f"out of time before {entry} {args}")
        cmd = [ENGINE, WASM, "--entry", entry, "--args", ",".join(map(str, args)), "--threads", str(a.threads),
               "--time", f"{left:.0f}", "--samples", str(j.get("samples", 16)), "--seed", str(seed), "--only", prop]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            d = json.loads(r.stdout)
        except Exception:
            no_answer(f"{entry} {args}: the executor failed: " + r.stderr.decode(errors="replace")[-500:])
        if d["status"] == "violation":
            v = d["violations"][0]
            out, log, msg = native(entry, args, v["inputs"], prop)
            if out not in BAD:
                no_answer(f"{entry} {args} inputs {v['inputs']}: the executor reports {v['kind']}: {v['msg']}, "
                          f"which does not reproduce natively ({out}: {msg}); stack {v['stack'][:6]}")
            rec = dict(property=prop, entry=entry, args=args, inputs=v["inputs"], kind=v["kind"], msg=v["msg"],
                       native=dict(outcome=out, msg=msg), stack=v["stack"][:20],
                       cmd=f"ND_ONLY={prop} {REPLAY} {entry} {','.join(map(str, args))} {','.join(map(str, v['inputs']))}")
            violations.append(rec)
            break  # one confirmed violation decides the check
        if d["status"] != "ok":
            no_answer(f"{entry} {args}: " + "; ".join(d.get("errors", []))[:800])
        missing = [c for c in covers if d["covers"].get(str(c), 0) == 0]
        if missing:
            problems.append(f"{entry} {args}: the situations {missing} the harness is for are not reached")
        for k in tot:
            tot[k] += d.get(k, 0)
        max_q = max(max_q, d["solver_max_ms"])
        fns.update(d["functions"])
        # the same passing paths on the native build must observe the same things
        smp = d["samples"]
        with cf.ThreadPoolExecutor(a.threads) as p:
            res = list(p.map(lambda s: native(entry, args, s["inputs"], prop), smp))
        for s, (out, log, msg) in zip(smp, res):
            if out in ("crash", "hang", "panic", "check"):
                # the executor's verdict and the real run disagree: never call that a pass
                no_answer(f"{entry} {args} inputs {s['inputs']}: passes symbolically but natively: {out} {msg}")
            if log != s["log"] or out != ("allowed-panic" if s["panicked"] else "ok"):
                no_answer(f"{entry} {args} inputs {s['inputs']}: native run differs: {out} {msg} {log} / {s['log']}")
            validated += 1
        samples += [dict(entry=entry, args=args, inputs=s["inputs"], observed=s["log"][:40]) for s in smp[:2]]
        runs.append(dict(entry=entry, args=args, paths=d["paths"], forks=d["forks"], queries=d["sat"] + d["unsat"],
                         max_symbolic_inputs=d["max_inputs"], seconds=d["seconds"],
                         covers={str(c): d["covers"].get(str(c), 0) for c in covers}))
        say(f"{entry}{tuple(args)}: ok, {d['paths']} paths, {d['sat'] + d['unsat']} queries, {d['seconds']} s")
    if problems and not violations:
        no_answer("; ".join(problems))
    listed = [f for f in known]
    new = violations
    ours = sorted(f for f in {re.sub(r"17h[0-9a-f]{16}E", "", f) for f in fns}
                  if re.search(r"async_ui|x_bow|::subject::", f))
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated,
            samples=samples[:24],
            exhaustive=False,
            bounds=P["bounds"],
            jobs=runs,
            functions_encoded=len(fns), repo_functions=ours[:400],
            solver_queries=tot["sat"] + tot["unsat"], solver_sat=tot["sat"], solver_unsat=tot["unsat"],
            query_cache_hits=tot["cached"], solver_seconds=round(tot["solver_ms"] / 1000, 3),
            longest_query_ms=max_q, assertions_decided_by_solver=tot["checks_symbolic"],
            assertions_constant_on_path=tot["checks_concrete"], values_concretized=tot["concretized"],
            infeasible_paths=tot["infeasible"], paths_ending_in_allowed_panic=tot["panic_paths"],
            instructions=tot["instrs"], build_seconds=round(tb, 1),
        ),
        assumptions=spec.COMMON + P.get("assume", []),
        wall_s=round(time.time() - t0, 1), violations=len(new),
    )
    if new:
        ev["coverage"]["violation"] = new[0]
    json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)
    if new:
        path = f"{HERE}/evidence/{prop}.replay.json"
        json.dump(new[0], open(path, "w"), indent=1)
        say(f"{new[0]['entry']}{tuple(new[0]['args'])} inputs {new[0]['inputs']}: {new[0]['kind']}: {new[0]['msg']}")
        say(f"native: {new[0]['native']['outcome']}: {new[0]['native']['msg']}")
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    for f in listed:
        say(f"KNOWN-FINDING: property={prop} {f['what']}")
    say(f"{prop}: held on {tot['paths']} paths ({len(jobs)} jobs, {tot['sat'] + tot['unsat']} solver queries), "
        f"{validated} traces validated, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
