#!/usr/bin/env python3
"""Decides one property by symbolic execution of the compiled crate.  usage: check.py C01 [quick|thorough] | --replay FILE"""
import glob, json, os, queue, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
B = os.environ.get("SX_BUILD", os.path.join(V, "build"))
SX = os.path.join(B, "sx")
TD = os.path.join(B, "target")
ENV = dict(os.environ, CARGO_TARGET_DIR=TD, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"): ENV.pop(k, None)
NPROC = int(os.environ.get("SX_JOBS", "8"))

def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)

def sh(cmd, cwd, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode: die("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout

def build_engine():
    sh(["make", "-s", "BIN=" + SX], os.path.join(V, "engine"), "building the engine")

def build_ir():
    """Whole-program LLVM IR of /repo's current tree together with the harness."""
    h = os.path.join(V, "harness")
    sh(["cargo", "rustc", "--offline", "-q", "--release", "--lib", "--crate-type", "staticlib", "--",
        "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], h, "compiling /repo with the harness")
    ll = sorted(glob.glob(os.path.join(TD, "release", "deps", "harness-*.ll")), key=os.path.getmtime)
    if not ll: die("no LLVM IR produced")
    return ll[-1]

def build_native(profile):
    h = os.path.join(V, "harness")
    sh(["cargo", "build", "--offline", "-q", "--profile", profile, "--bin", "replay", "--features", "native"], h, "building the native replay (%s)" % profile)
    return os.path.join(TD, "debug" if profile == "dev" else profile, "replay")

def block(harness, params, trace): return "H %s %s\n%sEND\n" % (harness, " ".join(map(str, params)), trace)

class Pool:
    """Worker processes of the engine, one job at a time each."""
    def __init__(self, ll):
        self.ll, self.q, self.out, self.lock = ll, queue.Queue(), [], threading.Lock()
        self.stop = False
    def worker(self):
        p = None
        while True:
            try: j = self.q.get_nowait()
            except queue.Empty: break
            if self.stop: continue
            if p is None:
                p = subprocess.Popen([SX, self.ll], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            line = "%s %s %d %d %d %d %d %s\n" % (j["label"].replace(" ", "_"), j["h"], j["part"], j["parts"], j.get("maxic", 4000000), j.get("timeout", 600), 8, " ".join(map(str, j["p"])))
            try:
                p.stdin.write(line); p.stdin.flush()
                r = p.stdout.readline()
            except BrokenPipeError: r = ""
            if not r:
                r = {"error": "engine died: " + p.stderr.read()[-500:], "violations": [], "reach": {}}
                p = None
            else: r = json.loads(r)
            with self.lock: self.out.append((j, r))
        if p: p.stdin.close(); p.wait()
    def run(self, jobs):
        for j in jobs: self.q.put(j)
        ts = [threading.Thread(target=self.worker) for _ in range(min(NPROC, len(jobs)))]
        for t in ts: t.start()
        return ts

def expand(jobs):
    out = []
    for j in jobs:
        parts = j.get("parts", 1)
        for k in range(parts): out.append(dict(j, part=k, parts=parts))
    # long ones first
    out.sort(key=lambda j: -j.get("cost", 1))
    return out

def replay_native(prog, text, k=None, timeout=20):
    try: p = subprocess.run([prog] + ([] if k is None else [str(k)]), input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired: return "timeout", ""
    return p.returncode, p.stdout[-1500:]

def confirm(kind, res):
    rc, out = res
    if rc == "timeout": return "does not terminate"
    if rc == 42: return out.strip().splitlines()[-1]
    if rc < 0: return "killed by signal %d" % -rc
    if rc == 101 or "panicked at" in out:
        i = out.find("panicked at")
        return " ".join(out[i:].split())[:300]
    return None

def main():
    import props
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        t = open(sys.argv[2]).read()
        for pr in ("dev", "user"): print(pr, replay_native(build_native(pr), "\n".join(l for l in t.splitlines() if not l.startswith("#")) + "\n"))
        return
    if sys.argv[1] == "--build":
        os.makedirs(B, exist_ok=True)
        build_engine(); build_ir(); build_native("dev")
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    spec = props.PROPS[pid]
    jobs = spec["jobs"](tier)
    known = [f for f in json.load(open(os.path.join(V, "known_findings.json")))["open"] if f["property"] == pid]
    et = threading.Thread(target=build_engine); et.start()
    ll = build_ir(); et.join()
    if not os.path.exists(SX): die("engine missing")
    tb = time.time()
    pool = Pool(ll)
    ts = pool.run(expand(jobs))
    native = build_native("dev")          # meanwhile
    for t in ts: t.join()
    if len(pool.out) != len(expand(jobs)): die("lost jobs")
    res = pool.out
    errs = [(j, r["error"]) for j, r in res if r["error"]]
    tot = lambda k: sum(r.get(k, 0) for _, r in res)
    # --- violations, one representative per kind and place
    seen, cands, kf = {}, [], {}
    for j, r in sorted(res, key=lambda x: (x[0]["label"], x[0]["part"])):
        for v in r["violations"]:
            f = next((f for f in known if f["harness"] == j["h"] and f["code"] == v["code"] and v["kind"] in ("assert", "fail")), None)
            key = (j["h"], v["kind"], v["code"], v["repo_loc"] or v["loc"])
            if f: kf.setdefault(f["id"], (f, j, v)); continue
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 2: cands.append((j, v))
    confirmed, unconfirmed = [], []
    rd = os.path.join(B, "replays"); os.makedirs(rd, exist_ok=True)
    user = None
    def check_native(j, v):
        nonlocal user
        txt = block(j["h"], j["p"], v["trace"])
        c = confirm(v["kind"], replay_native(native, txt, 0))
        prof = "dev"
        if not c:
            if user is None: user = build_native("user")
            c = confirm(v["kind"], replay_native(user, txt, 0)); prof = "user"
        return txt, c, prof
    for n, (j, v) in enumerate(cands[:12]):
        txt, c, prof = check_native(j, v)
        if c:
            path = os.path.join(rd, "%s-%d.txt" % (pid, len(confirmed)))
            with open(path, "w") as f:
                f.write("# property %s: %s (code %d) at %s\n# job %s\n# native replay (%s profile): %s\n" % (pid, v["kind"], v["code"], v["repo_loc"] or v["loc"], j["label"], prof, c.replace("\n", " ")))
                f.write("".join("#   " + s + "\n" for s in v["stack"][:12])); f.write(txt)
            confirmed.append((path, j, v, c))
        else: unconfirmed.append((j, v))
    for fid, (f, j, v) in sorted(kf.items()):
        txt, c, prof = check_native(j, v)
        if not c: unconfirmed.append((j, v)); continue
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    # --- sampled paths run natively: the executor and the real binary must agree
    samples, validated = [], 0
    if not confirmed:
        per = max(1, 240 // max(1, len(res)))
        for j, r in res:
            for s in (r.get("samples") or [])[:per]: samples.append((j, s))
        if samples:
            rc, out = replay_native(native, "".join(block(j["h"], j["p"], s) for j, s in samples), timeout=300)
            if rc != 0: errs.append(({"label": "sampled paths"}, "native run disagrees with the symbolic run: %s %s" % (rc, out[-700:])))
            validated = len(samples) if rc == 0 else 0
    # --- vacuity
    reach = {}
    for j, r in res:
        d = reach.setdefault(j["group"], {})
        for k, c in r["reach"].items(): d[int(k)] = d.get(int(k), 0) + c
    if not confirmed and not errs:
        for j in jobs:
            miss = [k for k in j.get("need", []) if not reach[j["group"]].get(k)]
            if miss: errs.append((j, "vacuous: marker %s of group %s never reached" % (miss, j["group"]))); break
    wall = time.time() - t0
    fns = sorted({f for _, r in res for f in r.get("functions", [])})
    lines = {}
    for _, r in res:
        for f, l in r.get("lines", {}).items(): lines.setdefault(f, set()).update(l)
    hexs = lambda s: " ".join(l for l in s.splitlines())
    cov = {
        "states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": validated,
        "samples": [{"job": j["label"], "input": hexs(s)} for j, s in samples[:: max(1, len(samples) // 6)][:8]] or [{"job": j["label"], "input": hexs(v["trace"])} for _, j, v, _ in confirmed[:4]],
        "states_are": "feasible symbolic paths, each standing for every input that takes it", "transitions_are": "two-way branches found feasible by the solver",
        "exhaustive_within_bounds": not errs, "jobs": len(jobs), "job_parts": len(res), "paths_to_the_end": tot("completed"),
        "instructions_executed": tot("instrs"), "assertions_checked": tot("asserts"),
        "solver": {"checks_sat": tot("sat"), "checks_unsat": tot("unsat"), "one_byte_conditions_decided": tot("q_unary"), "one_byte_conditions_sent_to_solver": tot("q_unary_distinct"),
                   "multi_byte_conditions_decided": tot("q_multi"), "models_extracted": tot("q_models"), "seconds": round(tot("z3_seconds"), 2), "engine_seconds": round(tot("seconds"), 2)},
        "bounds": spec["bounds"](tier), "outside_bounds": spec.get("outside", ""),
        "functions_encoded": fns, "source_lines_executed": {f: len(l) for f, l in sorted(lines.items())},
        "markers_reached": {g: {str(k): c for k, c in sorted(d.items())} for g, d in sorted(reach.items())},
        "build_seconds": round(tb - t0, 1), "known_findings_seen": sorted(kf),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": props.ASSUME + spec.get("assume", []),
          "wall_s": round(wall, 1), "violations": len(confirmed)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for path, j, v, c in confirmed:
        print("%s (code %d) at %s: %s" % (v["kind"], v["code"], v["repo_loc"] or v["loc"], props.CODES.get(v["code"], "") if v["kind"] in ("assert", "fail") else c[:160]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for j, v in unconfirmed: print("UNCONFIRMED: %s %s code %d at %s (not reproduced natively)" % (j["label"], v["kind"], v["code"], v["repo_loc"] or v["loc"]))
    for j, e in errs[:8]: print("JOB ERROR: %s: %s" % (j["label"], e))
    print("%s %s: %d jobs, %d paths, %d solver checks (%.1fs), %d sampled paths replayed, %.1fs" % (pid, tier, len(res), tot("paths"), tot("sat") + tot("unsat"), tot("z3_seconds"), validated, wall))
    if os.environ.get("SX_TIMES"):
        for j, r in sorted(res, key=lambda x: -x[1].get("seconds", 0))[:15]: print("   %.1fs %d paths %s/%d %s" % (r.get("seconds", 0), r.get("paths", 0), j["label"], j["part"], r["error"]))
    if confirmed: sys.exit(1)
    if errs or unconfirmed: sys.exit(2)
if __name__ == "__main__": main()
