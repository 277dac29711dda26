#!/usr/bin/env python3
"""Driver of the checks:  check.py PROPERTY [quick|thorough]   |   check.py --setup

Builds the symbolic executor, compiles the harness crate together with /repo's current
sources to LLVM IR, runs every harness of the property through the executor (z3 decides),
replays counterexamples and a sample of the explored paths against the natively compiled
code, and writes evidence/<property>.json.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
JOBS = str(min(8, os.cpu_count() or 1))
T0 = time.time()
sys.path.insert(0, V)
from spec import PROPS, CRATES  # noqa: E402


class Broken(Exception):
    """the check cannot give an answer"""


def sh(cmd, env=None, cwd=None, timeout=None):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(r, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read() + b"\0")
    return h.hexdigest()[:20]


def patched_futures_util():
    """futures-util as fetched, except that select! asks the harness which branch to poll first"""
    d = f"{B}/futures-util"
    with open(f"{V}/harness/client/Cargo.lock") as f:
        v = re.search(r'name = "futures-util"\nversion = "([^"]+)"', f.read()).group(1)
    done = f"{d}/.done-{v}"
    if os.path.exists(done):
        return
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = glob.glob(f"{home}/registry/src/*/futures-util-{v}")
    if not src:
        raise Broken(f"futures-util {v} is not in cargo's registry")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src[0], d)
    p = f"{d}/src/async_await/random.rs"
    with open(p) as f:
        s = f.read()
    at = s.index("fn gen_index")
    with open(p, "w") as f:
        f.write(s[s.index("#[doc(hidden)]"):at] + "fn gen_index(n: usize) -> usize {\n    extern \"C\" {\n        fn rsym_order(n: usize) -> usize;\n    }\n"
                "    unsafe { rsym_order(n) }\n}\n")
    open(done, "w").close()


def build_engine():
    rc, out = sh(["cargo", "+stable", "build", "--release", "--offline", "-q"], cwd=f"{V}/engine",
                 env={"CARGO_TARGET_DIR": f"{B}/engine"})
    if rc:
        raise Broken("the symbolic executor does not build:\n" + out[-3000:])


def build_crate(c, key):
    """IR and native replayer of a harness crate, from /repo's current sources"""
    d = CRATES[c].get("dir", c)
    h = f"{V}/harness/{d}"
    lock = f"{h}/Cargo.lock"
    if not os.path.exists(lock):
        with open(f"{REPO}/Cargo.lock") as a, open(lock, "w") as b:
            b.write(a.read())
    stamp = f"{B}/{c}.key"
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == key and os.path.exists(f"{B}/{c}.ll") and os.path.exists(f"{B}/{c}-native/debug/native"):
        return
    if os.path.exists(stamp):
        os.remove(stamp)
    flags = CRATES[c].get("rustflags", "")
    env_ir = {"CARGO_TARGET_DIR": f"{B}/{c}", "RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp " + flags}
    env_nat = {"CARGO_TARGET_DIR": f"{B}/{c}-native", "RUSTFLAGS": flags}
    env_ir.update(CRATES[c].get("env", {}))
    env_nat.update(CRATES[c].get("env", {}))
    # file times may lie after a checkout: what /repo provides is always compiled again
    ours = [x for p in CRATES[c]["repo_crates"] for x in ("-p", p)]
    errs = []

    def ir():
        if old:
            sh(["cargo", "+stable", "clean", "--offline", "--release"] + ours, cwd=h, env=env_ir)
        d = f"{B}/{c}/release/deps"
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith("ir-"):
                    os.remove(os.path.join(d, f))
        rc, out = sh(["cargo", "+stable", "rustc", "--offline", "--release", "--bin", "ir", "--", "-C", "opt-level=0",
                      "-C", "save-temps", "-C", f"linker={V}/fakelink.sh"], cwd=h, env=env_ir)
        bc = [f for f in os.listdir(d) if re.fullmatch(r"ir-.*\.lto\.after-restriction\.bc", f)] if os.path.isdir(d) else []
        if rc or len(bc) != 1:
            errs.append(f"harness {c} does not compile to IR ({bc}):\n" + out[-4000:])
            return
        rc, root = sh(["rustc", "+stable", "--print", "sysroot"])
        opt = root.strip() + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt"
        rc, out = sh([opt, "-strip-debug", "-passes=globaldce,strip-dead-prototypes", "-S", f"{d}/{bc[0]}", "-o", f"{B}/{c}.ll"])
        if rc:
            errs.append("opt failed:\n" + out[-3000:])
        for f in os.listdir(d):
            if f.startswith("ir-") and f.endswith((".bc", ".o")):
                os.remove(os.path.join(d, f))

    def native():
        if old:
            sh(["cargo", "+stable", "clean", "--offline"] + ours, cwd=h, env=env_nat)
        rc, out = sh(["cargo", "+stable", "build", "--offline", "--bin", "native"], cwd=h, env=env_nat)
        if rc:
            errs.append(f"native replayer of {c} does not build:\n" + out[-4000:])

    ts = [threading.Thread(target=f) for f in (ir, native)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Broken("\n".join(errs))
    with open(stamp, "w") as f:
        f.write(key)


def build(crates):
    os.makedirs(B, exist_ok=True)
    if "client" in crates:
        patched_futures_util()
    errs = []

    def guarded(f, *a):
        try:
            f(*a)
        except Broken as e:
            errs.append(str(e))

    ts = [threading.Thread(target=guarded, args=(build_engine,))]
    for c in crates:
        key = tree_hash([REPO, f"{V}/harness/" + CRATES[c].get("dir", c)] + [f"{V}/harness/{x}" for x in CRATES[c].get("also", [])])
        ts.append(threading.Thread(target=guarded, args=(build_crate, c, key)))
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Broken("\n".join(errs))


def run_engine(c, idx, size, limit, cex_time, out, extra=()):
    if os.path.exists(out):
        os.remove(out)
    cmd = [f"{B}/engine/release/rsym", f"{B}/{c}.ll", "--arg", str(idx), "--arg", str(size), "--out", out,
           "--jobs", JOBS, "--time", str(int(limit)), "--cex-time", str(int(cex_time))] + list(extra)
    rc, txt = sh(cmd)
    if not os.path.exists(out):
        raise Broken(f"executor failed on harness {idx}/{size}: {txt[-1500:]}")
    with open(out) as f:
        r = json.load(f)
    os.remove(out)
    r["stderr"] = txt
    return r


def native(c, idx, size, data, timeout=20, plan=None, text=False):
    """-> (end, log)"""
    tmp = None
    if len(data) > 60000:
        # more than a command line takes
        fd, tmp = tempfile.mkstemp(dir=B)
        with os.fdopen(fd, "w") as f:
            f.write(data)
        data = "@" + tmp
    try:
        p = subprocess.run([f"{B}/{c}-native/debug/native", str(idx), str(size), data] + ([plan] if plan else []),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        if tmp:
            os.remove(tmp)
    o = p.stdout.decode("utf-8", "replace")
    if text:
        return o, ""
    log = re.search(r"^LOG ([0-9a-f]*)$", o, re.M)
    end = re.search(r"^END (.*)$", o, re.M)
    if not end:
        return f"crash {p.returncode}", log.group(1) if log else ""
    return end.group(1), log.group(1) if log else ""


def find_schedule(pool, c, idx, size, v, limit):
    """a schedule of two native threads under which the counterexample shows -> (plan, end) or None

    The executor's schedule counts the atomic operations of the optimised code, where the native run has other ones:
    all schedules with as many switches are tried, those next to it first."""
    t0 = time.time()
    o, _ = native(c, idx, size, v["bytes"], plan="4000000000", text=True)
    ops = [tuple(map(int, x)) for x in re.findall(r"^OPS (\d+) (\d+)$", o, re.M)]
    n0, n1 = ops[-1] if ops else (400, 100)
    hint = [tuple(map(int, x.split(":"))) for x in v.get("schedule", "").split(",") if x]
    plans = [(a,) for a in range(n0 + 2)] + ([(a, b) for a in range(n0 + 2) for b in range(n1 + 2)] if len(hint) > 1 else [])
    h0 = hint[0][1] if hint else 0
    plans.sort(key=lambda p: (len(p), abs(p[0] - h0 * 0.6)))
    ends = ("timeout",) if v["kind"] == "deadlock" else ("violation", "panic", "crash")
    for i in range(0, len(plans), 32):
        if time.time() - t0 > limit:
            return None
        some = [",".join(map(str, p)) for p in plans[i:i + 32]]
        for p, (end, _) in zip(some, pool.map(lambda p: native(c, idx, size, v["bytes"], 10, p), some)):
            if end.startswith(ends):
                return p, end
    return None


def known(prop):
    p = f"{V}/known_findings.json"
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    if sys.argv[1] == "--setup":
        build(list(CRATES))
        print("built in %.1f s" % (time.time() - T0))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = PROPS[prop]
    budget = 780 if tier == "quick" else 3300
    ev_dir = f"{V}/evidence"
    os.makedirs(ev_dir, exist_ok=True)
    crates = sorted({h["crate"] for h in spec["harnesses"]})
    build(crates)
    t_build = time.time() - T0
    findings = known(prop)
    broken, runs, viol, seen_known, samples = [], [], [], {}, []
    funcs, tot = set(), {}
    validated = 0
    partial = []
    pool = ThreadPoolExecutor(8)
    for h in spec["harnesses"]:
        covers = {}
        whole = True
        sizes = [(s, True) for s in h["quick"]]
        if tier == "thorough":
            sizes += [(s, False) for s in h.get("thorough", [])]
        for size, required in sizes:
            left = budget - (time.time() - T0)
            if left < 5:
                runs.append({"harness": h["name"], "size": size, "complete": False, "skipped": True})
                whole = False
                if required:
                    partial.append(f"no time left for {h['name']} at size {size}")
                continue
            # one size never takes more than half of what is left
            r = run_engine(h["crate"], h["idx"], size, left if not required else max(60, left * 0.5), 90, f"{B}/report.{os.getpid()}.json",
                           ["--max-steps", str(h["max_steps"])] if "max_steps" in h else [])
            funcs.update(r["functions"])
            for k in ("instructions", "forks", "branches", "decided_by_domain", "decided_by_z3", "checks_concrete", "checks_z3",
                      "z3_queries", "z3_seconds", "preemptions", "domain_decisions_confirmed_by_z3"):
                tot[k] = tot.get(k, 0) + r.get(k, 0)
            for k, v in r["paths"].items():
                tot["paths_" + k] = tot.get("paths_" + k, 0) + v
            for k, v in r["covers"].items():
                covers[k] = covers.get(k, 0) + v
            runs.append({"harness": h["name"], "size": size, "complete": r["complete"], "seconds": round(r["seconds"], 2),
                         "paths": {k: v for k, v in r["paths"].items() if v}, "z3_queries": r["z3_queries"],
                         "z3_seconds": round(r["z3_seconds"], 2), "assertions": r["checks"], "reached": r["covers"]})
            whole &= r["complete"] and not r["unsupported"]
            if required and r["unsupported"]:
                partial.append(f"{h['name']}/{size}: paths not executable symbolically: {r['unsupported']}")
            elif required and not r["complete"]:
                partial.append(f"{h['name']}/{size}: exploration incomplete")
            # counterexamples: replay natively
            by = {}
            for v in r["violations"]:
                by.setdefault((v["kind"], v["msg"]), []).append(v)
            for (kind, msg), vs in by.items():
                hit = None
                for v in vs[:3]:
                    end, _ = native(h["crate"], h["idx"], size, v["bytes"])
                    if end.startswith(("violation", "panic", "crash", "timeout")):
                        hit = (v, end, "")
                        break
                if hit is None and vs[0].get("schedule"):
                    v = min(vs, key=lambda v: len(v["schedule"]))
                    s = find_schedule(pool, h["crate"], h["idx"], size, v, 150)
                    if s:
                        hit = (v, s[1], " " + s[0])
                if hit is None:
                    broken.append(f"{h['name']}/{size}: counterexample does not reproduce natively: {kind} {msg} {vs[0]['bytes']}")
                    continue
                v, end, plan = hit
                f = next((f for f in findings if f["harness"] == h["idx"] and f["message"] == msg), None)
                if f:
                    seen_known[f["message"]] = f
                    continue
                viol.append({"property": prop, "crate": h["crate"], "harness": h["name"], "idx": h["idx"], "size": size,
                             "kind": kind, "message": msg, "bytes": v["bytes"], "schedule": v.get("schedule", ""), "native": end,
                             "replay": f"{B}/{h['crate']}-native/debug/native {h['idx']} {size} {v['bytes']}{plan}"})
            # a sample of the explored paths has to behave the same natively
            ss = r["samples"]
            for s, (end, log) in zip(ss, pool.map(lambda s: native(h["crate"], h["idx"], size, s["bytes"]), ss)):
                if end == "ok" and log == s["log"]:
                    validated += 1
                else:
                    broken.append(f"{h['name']}/{size}: path disagrees with the native run: {s['bytes']} {s['log']} / {end} {log}")
            for s in ss[:2]:
                samples.append({"harness": h["name"], "size": size, "input_bytes": s["bytes"], "observed": s["log"]})
            if viol and time.time() - T0 > 240:
                break
        if not viol and whole:
            for c in h.get("covers", []):
                if not covers.get(c):
                    broken.append(f"{h['name']}: '{c}' is never reached, the harness is vacuous")
    for f in findings:
        if f["message"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    rc = 0
    for i, v in enumerate(viol):
        p = f"{ev_dir}/{prop}.replay.{i}.json"
        if len(v["bytes"]) > 60000:
            with open(f"{ev_dir}/{prop}.replay.{i}.hex", "w") as f:
                f.write(v["bytes"])
            v["replay"] = v["replay"].replace(v["bytes"], f"@{ev_dir}/{prop}.replay.{i}.hex")
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        print(f"  {v['kind']}: {v['message']} [{v['harness']} size {v['size']}] native: {v['native']}")
        print(f"VIOLATION property={prop} replay={p}")
        rc = 1
    for b in partial[:20]:
        print("NOTE: " + b)
    if broken:
        for b in broken[:20]:
            print("ERROR: " + b, file=sys.stderr)
        if not viol:
            rc = 2
    repo_funcs = sorted(f for f in funcs if re.search(r"socket_io|owned_subslice", f))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
        "coverage": {
            "states": sum(v for k, v in tot.items() if k.startswith("paths_")),
            "transitions": tot.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": samples[:40],
            "meaning": "states: symbolic paths run to their end, each standing for every input that satisfies its path condition; "
                       "transitions: points where a path was split on a symbolic condition",
            "exhaustive": all(r.get("complete") for r in runs) and not broken,
            "runs": runs, "bounds": spec["bounds"], "stubs": spec.get("stubs", []),
            "instructions_executed": tot.get("instructions", 0), "symbolic_branches": tot.get("branches", 0),
            "branches_decided_by_byte_domains": tot.get("decided_by_domain", 0), "branches_decided_by_z3": tot.get("decided_by_z3", 0),
            "domain_decisions_confirmed_by_z3": tot.get("domain_decisions_confirmed_by_z3", 0),
            "assertions_with_concrete_truth": tot.get("checks_concrete", 0), "assertions_decided_symbolically": tot.get("checks_z3", 0),
            "thread_switches_explored": tot.get("preemptions", 0),
            "z3_queries": tot.get("z3_queries", 0), "z3_seconds": round(tot.get("z3_seconds", 0), 2),
            "functions_encoded": len(funcs), "repo_functions_encoded": repo_funcs,
            "build_seconds": round(t_build, 1), "errors": broken[:20], "not_explored_completely": partial[:20],
            "known_findings_reproduced": sorted(seen_known),
        },
        "assumptions": spec.get("assumptions", []) + [
            "LLVM IR produced by rustc for x86_64 is executed, after cross-crate inlining, with overflow checks and debug assertions on",
            "z3 4.8.12 and the executor's own byte-domain and interval reasoning are trusted; sampled paths are compared with native runs",
        ],
        "wall_s": round(time.time() - T0, 2), "violations": len(viol),
    }
    with open(f"{ev_dir}/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {ev['coverage']['states']} paths, {ev['coverage']['z3_queries']} queries, "
          f"{validated} native runs compared, {len(viol)} violations, {ev['wall_s']} s (build {t_build:.1f} s)")
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR: " + str(e), file=sys.stderr)
        sys.exit(2)
