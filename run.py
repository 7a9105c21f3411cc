#!/usr/bin/env python3
"""Check driver: python3 run.py --property C04 [--tier quick|thorough]

Regenerates the LLVM IR of the harness (which contains the code of /repo's current
working tree), executes it symbolically with `symex` (Z3 decides), replays every
counterexample natively in a debug and an optimised build, and cross-validates a
sample of the explored paths against the native build.

exit 0: held on everything explored; 1: violation (VIOLATION line); 2: no answer
"""
import argparse, json, os, re, shutil, subprocess, sys, threading, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(VERIF, "work")
HARNESS = os.path.join(VERIF, "harness")
SYMEX = os.path.join(VERIF, "symex", "target", "release", "symex")
REPO = "/repo"
sys.path.insert(0, VERIF)
import plan  # noqa: E402

ENV = dict(os.environ)
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def build_symex():
    return sh(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "symex"))


VARIANT = ""  # "oid-": the harness with der-oid-macro (feature oid), in build folders of its own
OID_PROPS = ("C20",)


def feat():
    return ["--features", "oid"] if VARIANT else []


def build_ir():
    env = dict(ENV)
    env["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp"
    rc, out = sh(["cargo", "rustc", "--lib", "--release", "--offline", "--target-dir", os.path.join(WORK, VARIANT + "ir")] + feat() + ["--", "--emit=llvm-ir"], HARNESS, env)
    return rc, out


def build_nat(prof):
    def f():
        p = ["--profile", "ship"] if prof == "ship" else []
        return sh(["cargo", "build", "--bin", "replay", "--offline", "--target-dir", os.path.join(WORK, VARIANT + prof)] + p + feat(), HARNESS)
    return f


def ll_path():
    return os.path.join(WORK, VARIANT + "ir", "release", "deps", "harness.ll")


def replay_bin(prof):
    return os.path.join(WORK, VARIANT + prof, "debug" if prof == "dev" else "ship", "replay")


def build_all():
    os.makedirs(WORK, exist_ok=True)
    lock = os.path.join(HARNESS, "Cargo.lock")
    saved = open(lock).read()
    with ThreadPoolExecutor(4) as ex:
        fs = [(n, ex.submit(f)) for n, f in (("symex", build_symex), ("ir", build_ir), ("dev", build_nat("dev")), ("ship", build_nat("ship")))]
        bad = False
        for n, f in fs:
            rc, out = f.result()
            if rc != 0:
                bad = True
                print("BUILD FAILED (%s):\n%s" % (n, out[-4000:]))
    if open(lock).read() != saved:
        open(lock, "w").write(saved)
    return not bad


def params_str(ps):
    return ",".join(str(p) for p in ps) if ps else "-"


class Job:
    def __init__(self, inst, shard, nsh):
        self.inst, self.shard, self.nsh = inst, shard, nsh
        self.res = None
        self.rc = None
        self.err = ""


def run_job(job, idx, tmo, samples, tmpd, extra):
    out = os.path.join(tmpd, "j%d.json" % idx)
    i = job.inst
    cmd = [SYMEX, "--ll", ll_path(), "--entry", "h_" + i["entry"], "--timeout", str(tmo), "--samples", str(samples),
           "--max-viols", "8", "--out", out] + extra
    if i["params"]:
        cmd += ["--params", params_str(i["params"])]
    if job.nsh > 1:
        cmd += ["--shard", "%d/%d" % (job.shard, job.nsh)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo + 120)
        job.rc, job.err = r.returncode, r.stdout[-2000:]
    except subprocess.TimeoutExpired:
        job.rc, job.err = 2, "hard timeout"
    if os.path.exists(out):
        try:
            job.res = json.load(open(out))
        except Exception as e:  # noqa
            job.err += " json: %s" % e
    return job


def native(prof, entry, params, inp, timeout=120):
    """-> (code, text): 0 ok, 10 assertion, 11 panic, 12 assumption, 13 allowed panic, <0 crash"""
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 8388608; exec \"$@\"", "-", replay_bin(prof), entry, params_str(params), inp or "-"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout.strip()[-500:]
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def batch(prof, lines):
    r = subprocess.run([replay_bin(prof), "--batch"], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    return r.returncode, r.stdout.splitlines()


def known(prop):
    """assertion ids of recorded findings of this property"""
    ks = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) assert=(\d+) entry=(\S+) params=(\S+) input=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            ks.setdefault(int(m.group(2)), []).append((m.group(3), m.group(4), m.group(5), m.group(6)))
    return ks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="substring filter on instance names (development)")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property
    t0 = time.time()
    global VARIANT
    VARIANT = "oid-" if prop in OID_PROPS else ""
    if not a.no_build:
        if not build_all():
            return 2
        if a.build_only:
            VARIANT = "oid-"
            if not build_all():
                return 2
    tb = time.time() - t0
    if a.build_only:
        return 0
    insts = plan.instances(prop, tier)
    if a.only:
        insts = [i for i in insts if any(x in i["name"] for x in a.only.split("|"))]
    tmpd = os.path.join(WORK, "run_%s_%d" % (prop, os.getpid()))
    os.makedirs(tmpd, exist_ok=True)
    rpd = os.path.join(WORK, "replays")
    os.makedirs(rpd, exist_ok=True)
    jobs = []
    for i in insts:
        for s in range(i["shards"]):
            jobs.append(Job(i, s, i["shards"]))
    order = sorted(range(len(jobs)), key=lambda k: -jobs[k].inst["weight"] / jobs[k].nsh)
    budget = plan.BUDGET[tier]
    deadline = t0 + budget
    stop = threading.Event()
    kn = known(prop)
    confirmed, unconfirmed, known_hit = [], [], {}
    lock = threading.Lock()
    extra = ["--z3-only"] if tier == "thorough" and plan.Z3_ONLY_THOROUGH else []
    # a path longer than this is a candidate for an endless loop (the longest on the unchanged tree has 4M instructions in the quick tier)
    extra += ["--max-insts", str({"quick": 25, "thorough": 400}[tier] * 1000000)]

    def handle_viols(job):
        for v in job.res.get("violations", []):
            i = job.inst
            if v["kind"] == "assert" and v["id"] in kn:
                with lock:
                    known_hit.setdefault(v["id"], v["input"])
                continue
            if stop.is_set():
                return
            loop = v["kind"] == "nontermination"
            res = {p: native(p, i["entry"], i["params"], v["input"], 20 if loop else 120) for p in ("dev", "ship")}
            # the replay must fail, in a way a user of that build profile would see
            hit = [p for p, (c, _) in res.items() if c in (10, 11) or c < 0]
            rec = {"instance": i["name"], "entry": i["entry"], "params": i["params"], "violation": v, "native": {p: list(r) for p, r in res.items()}}
            if loop and not hit:
                continue  # just a long path: stays an incomplete instance
            with lock:
                (confirmed if hit else unconfirmed).append(rec)
                if hit:
                    stop.set()

    def work(k):
        job = jobs[k]
        left = deadline - time.time()
        if stop.is_set() or left < 5:
            job.rc, job.err = 2, "not started"
            return
        run_job(job, k, max(5, min(left, job.inst["timeout"])), plan.SAMPLES[tier], tmpd, extra)
        if job.res is None:
            return
        handle_viols(job)
        if a.verbose:
            r = job.res
            print("  %-40s %d/%d rc=%s paths=%s q=%s z3=%.1fs wall=%.1fs viol=%d err=%s reached=%s" % (
                job.inst["name"], job.shard, job.nsh, "%s longest=%d" % (job.rc, r["longest"]), r["paths"], r["queries"], r["z3_time"], r["wall"], len(r["violations"]), r["errors"][:2], r["reached"]), flush=True)

    with ThreadPoolExecutor(plan.WORKERS) as ex:
        list(ex.map(work, order))

    # ---- aggregate
    tot = {k: 0 for k in ("paths", "insts", "forks", "asserts", "assert_queries", "queries", "sat", "unsat", "unknown", "cache_hits", "dom_hits", "z3_calls", "killed", "panics_allowed")}
    z3t, maxq = 0.0, 0.0
    functions, per, incomplete, errors, samples = set(), [], [], [], []
    reach_tot = {}
    for j in jobs:
        r = j.res
        if r is None:
            incomplete.append("%s %d/%d: %s" % (j.inst["name"], j.shard, j.nsh, j.err.strip()[-300:]))
            if j.err not in ("not started", "hard timeout"):
                errors.append("%s: engine gave no result: %s" % (j.inst["name"], j.err.strip()[-300:]))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        z3t += r["z3_time"]
        maxq = max(maxq, r["max_query"])
        functions.update(r["functions"])
        for k, v in r["reached"].items():
            reach_tot.setdefault(j.inst["name"], {})
            reach_tot[j.inst["name"]][int(k)] = reach_tot[j.inst["name"]].get(int(k), 0) + v
        if r["errors"]:
            errors.append("%s: %s" % (j.inst["name"], r["errors"][:3]))
        if not r["complete"]:
            incomplete.append("%s %d/%d: %s" % (j.inst["name"], j.shard, j.nsh, "time limit" if r["timed_out"] else "engine error / unknown"))
        for s in r["samples"]:
            samples.append((j.inst["entry"], j.inst["params"], s[0], s[1]))
    # ---- vacuity: every instance's required markers must have been reached by some path
    vacuous = []
    for i in insts:
        for m in i["reach"]:
            if m not in reach_tot.get(i["name"], {}):
                js = [j for j in jobs if j.inst is i]
                if all(j.res is not None and j.res["complete"] for j in js) and not confirmed:
                    vacuous.append("%s: marker %d not reached" % (i["name"], m))
    # ---- path samples against the native build
    mism, validated = [], 0
    if samples and not confirmed:
        rng = random.Random(seed)
        rng.shuffle(samples)
        samples = samples[: plan.VALIDATE[tier]]
        lines = ["%s %s %s" % (e, params_str(p), i or "-") for e, p, i, _ in samples]
        for prof in ("dev", "ship"):
            rc, out = batch(prof, lines)
            if rc != 0 or len(out) != len(lines):
                k = len(out)
                # a crash (e.g. stack overflow) of the native build on an input the encoding accepts
                if k < len(lines):
                    e, p, i, _ = samples[k]
                    c, txt = native(prof, e, p, i)
                    if c < 0 or c in (10, 11):
                        confirmed.append({"instance": "native sample", "entry": e, "params": p, "violation": {"kind": "native crash", "id": 0, "input": i}, "native": {prof: [c, txt]}})
                        break
                mism.append("native batch ended early (%s): rc %d" % (prof, rc))
                break
            for l, o, (e, p, i, hsh) in zip(lines, out, samples):
                if o.startswith("ok ") and o[3:] == hsh:
                    validated += 1
                elif o == "panic-allowed":
                    validated += 1
                else:
                    mism.append("%s: %s -> native %s, symbolic %s (%s)" % (prof, l[:200], o, hsh, prof))
    complete_jobs = sum(1 for j in jobs if j.res is not None and j.res["complete"])
    wall = time.time() - t0

    # ---- report
    rc = 0
    if confirmed:
        rc = 1
        for n, c in enumerate(confirmed[:5]):
            path = os.path.join(rpd, "%s_%d.json" % (prop, n))
            c["replay_cmd"] = "cd %s && python3 run.py --property %s --tier quick  # or, after a build: %s %s %s %s" % (
                VERIF, prop, replay_bin("dev"), c["entry"], params_str(c["params"]), c["violation"]["input"] or "-")
            json.dump(c, open(path, "w"), indent=1)
            print("violation: instance %s input %s: %s (assert %s); native %s" % (c["instance"], c["violation"]["input"], c["violation"]["kind"], c["violation"]["id"], c["native"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        for u in unconfirmed[:5]:
            print("NOT REPRODUCED natively (encoding problem, not reported as violation): %s" % json.dumps(u)[:600])
        for m in mism[:5]:
            print("ENCODING MISMATCH: %s" % m)
        for v in vacuous[:10]:
            print("VACUOUS: %s" % v)
        for e in errors[:10]:
            print("ENGINE: %s" % e)
        for e in incomplete[:10]:
            print("INCOMPLETE: %s" % e)
        if unconfirmed or mism or complete_jobs == 0:
            rc = 2
        elif vacuous:
            rc = 2
        # recorded findings: still present?
        for kid, lst in sorted(kn.items()):
            for (e, p, i, what) in lst:
                ps = [] if p == "-" else [int(x) for x in p.split(",")]
                c, txt = native("dev", e, ps, i)
                if c == 10 and txt == "fail %d" % kid:
                    print("KNOWN-FINDING: property=%s %s (input %s)" % (prop, what, i))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["insts"], "traces_validated_against_impl": validated,
            "samples": [{"entry": e, "params": params_str(p), "input": i, "observed": h} for e, p, i, h in samples[:5]] or [{"note": "none"}],
            "exhaustive": not incomplete and not errors,
            "paths_meaning": "feasible symbolic paths; each covers every input satisfying its path condition",
            "instances": [{"name": i["name"], "entry": i["entry"], "bounds": i["bounds"], "paths": sum(j.res["paths"] for j in jobs if j.inst is i and j.res)} for i in insts],
            "assertions_evaluated": tot["asserts"], "assertion_queries_z3": tot["assert_queries"],
            "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
            "queries_z3": tot["z3_calls"], "queries_cached": tot["cache_hits"], "queries_byte_domain": tot["dom_hits"],
            "solver_time_s": round(z3t, 2), "max_query_s": maxq, "forks": tot["forks"], "paths_excluded_by_assumption": tot["killed"],
            "functions_encoded": len(functions),
            "functions_encoded_der_parser": sorted(f for f in functions if "der_parser" in f)[:400],
            "engine_errors": errors[:20], "incomplete": incomplete[:20], "build_s": round(tb, 1),
        },
        "assumptions": plan.ASSUMPTIONS + plan.BOUNDS_NOTE.get(prop, []),
        "wall_s": round(wall, 1),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(tmpd, ignore_errors=True)
    print("%s %s: rc=%d paths=%d asserts=%d queries=%d (z3 %d, %.1fs) validated=%d complete=%d/%d wall=%.1fs (build %.1fs)" % (
        prop, tier, rc, tot["paths"], tot["asserts"], tot["queries"], tot["z3_calls"], z3t, validated, complete_jobs, len(jobs), wall, tb))
    return rc


if __name__ == "__main__":
    sys.exit(main())
