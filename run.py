#!/usr/bin/env python3
"""Runner for the exhaustive explorers.

  run.py check <PROPERTY> <quick|thorough>     run one property's check
  run.py replay <replay-file>                  re-execute one recorded violation
  run.py list                                  list properties and explorers

A check compiles its explorers against the current working tree of /repo (in a scratch
directory that is removed afterwards), runs them sharded over the cores, confirms every
violation by replaying it, matches it against known_findings.txt, writes
evidence/<ID>.json and exits 0 / 1.
"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, concurrent.futures as cf, re

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BASE_FLAGS = ["-std=gnu++17", "-w", "-I" + os.path.join(VERIF, "harness")]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(job, bdir):
    """job: explorer dict -> (binary, error)"""
    src = os.path.join(VERIF, "harness", job["src"])
    flags = list(BASE_FLAGS)
    if job.get("shim"):
        flags.append("-I" + os.path.join(VERIF, "shim"))
    flags.append("-I" + os.path.join(REPO, "include"))
    flags += job.get("flags", ["-O1", "-DNDEBUG"])
    key = hashlib.sha1((src + " ".join(flags)).encode()).hexdigest()[:12]
    out = os.path.join(bdir, os.path.basename(job["src"]).replace(".cc", "") + "-" + key)
    return out, [job.get("cxx", "g++")] + flags + [src, "-o", out] + job.get("libs", [])


def load_known(pid):
    res, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def abnormal_msg(rc, tail):
    if rc == 97:
        return "hang", "the code under test made no progress (hang / livelock / unbounded loop)"
    if rc < 0:
        return "crash", "the code under test was killed by signal %d" % -rc
    if "AddressSanitizer" in tail or "LeakSanitizer" in tail or "runtime error" in tail:
        return "sanitizer", "sanitizer report"
    return "abort", "the code under test ended the process (exit code %d)" % rc


def run_shard(binary, job, tier, shard, nsh, wdir, env, timeout, replay=None):
    tag = "%s_%s_%d" % (os.path.basename(binary), job.get("mode", "m"), shard)
    if replay is not None:
        tag += "_replay%d" % (abs(hash(replay)) % 10**9)
    out = os.path.join(wdir, tag + ".json")
    case = os.path.join(wdir, tag + ".case")
    log = os.path.join(wdir, tag + ".log")
    cwd = os.path.join(wdir, tag + ".cwd")
    os.makedirs(cwd, exist_ok=True)
    cmd = [binary, "--tier", tier, "--mode", job.get("mode", ""), "--shard", "%d/%d" % (shard, nsh),
           "--out", out, "--case", case] + job.get("args", {}).get(tier, [])
    if "hang" in job:
        cmd += ["--hang", str(job["hang"])]
    if replay is not None:
        cmd += ["--replay", replay]
    e = dict(os.environ)
    e.update(env)
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=cwd, env=e,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = None
    shutil.rmtree(cwd, ignore_errors=True)
    with open(log, "rb") as lf:
        lf.seek(max(0, os.path.getsize(log) - 6000))
        tail = lf.read().decode("latin1")
    rep = None
    if os.path.exists(out) and os.path.getsize(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    casetxt = ""
    if os.path.exists(case):
        casetxt = open(case, "rb").read().split(b"\0")[0].decode("latin1")
    if rep is not None and rc in (0, 1):
        os.remove(out)
    for f in (case,):
        if os.path.exists(f):
            os.remove(f)
    return rc, rep, casetxt, tail


def check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    jobs = [j for j in spec["explorers"] if tier in j.get("tiers", ("quick", "thorough"))]
    bdir = tempfile.mkdtemp(prefix="vmc-%s-" % pid)
    env = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=96:allocator_may_return_null=1:hard_rss_limit_mb=3500",
           "UBSAN_OPTIONS": "halt_on_error=1:exitcode=96:print_stacktrace=0", "OMP_NUM_THREADS": "1",
           "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    merged = dict(states=0, transitions=0, evaluations=0, traces_validated=0, distinct=0, outcomes={},
                  viol_count={}, info={}, samples=[])
    viols = []          # (key, job, binary, replaycase, msg)
    try:
        cmds = {}
        for j in jobs:
            b, c = compile_one(j, bdir)
            j["_bin"] = b
            cmds[b] = c
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda c: sh(c), cmds.values()))
        for i, (c, r) in enumerate(zip(cmds.values(), res)):
            if r.returncode != 0 and ("Killed" in r.stdout or "Terminated" in r.stdout):   # the machine ran out of memory: once more, alone
                res[i] = sh(c)
        for c, r in zip(cmds.values(), res):
            if r.returncode != 0:
                print("BUILD-FAILED property=%s: explorer does not compile against the working tree" % pid)
                print(" ".join(c))
                print(r.stdout[-4000:])
                return 2
        budget = (840 if tier == "quick" else 6 * 3600)
        tasks = []
        for j in jobs:
            n = j.get("shards", {}).get(tier, NCPU) if isinstance(j.get("shards"), dict) else j.get("shards", NCPU)
            for s in range(n):
                tasks.append((j, s, n))

        def one(t):
            j, s, n = t
            left = budget - (time.time() - t0)
            return t, run_shard(j["_bin"], j, tier, s, n, bdir, env, max(5, left))

        incomplete = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for t, (rc, rep, casetxt, tail) in ex.map(one, tasks):
                j = t[0]
                if rc is None:
                    incomplete.append((j["src"], j.get("mode"), t[1]))
                    continue
                if rep is not None and rc in (0, 1):
                    for k in ("states", "transitions", "evaluations", "traces_validated", "distinct"):
                        merged[k] += rep[k]
                    for k in ("outcomes", "viol_count"):
                        for a, b in rep[k].items():
                            merged[k][a] = merged[k].get(a, 0) + b
                    merged["info"].update(rep["info"])
                    if len(merged["samples"]) < 12:
                        merged["samples"] += rep["samples"][:2]
                    for v in rep["violations"]:
                        viols.append((v["key"], j, v["replay"], v["msg"], False))
                else:
                    kind, msg = abnormal_msg(rc, tail)
                    viols.append((kind, j, casetxt, msg + "\n" + tail[-1500:], True))
        # one representative per key first, then confirm by replay
        viols.sort(key=lambda v: (v[0], len(v[2]), v[2]))
        seen, reported, known_hit = set(), [], {}
        known = load_known(pid)
        for key, j, case, msg, abn in viols:
            if key in seen:
                continue
            kmatch = next((k for k in known if k[0] == key), None)
            # replay
            rc, rep, _, tail = run_shard(j["_bin"], j, tier, 0, 1, bdir, env, 300, replay=case)
            if abn:
                ok = rc is None or not (rep is not None and rc == 0)
            else:
                ok = rep is None or bool(rep["violations"])
            if not ok:
                print("NOT-REPRODUCED property=%s key=%s case=%s (ignored as harness noise, investigate)" % (pid, key, case[:200]))
                merged["info"]["not_reproduced_" + key] = case[:200]
                continue
            seen.add(key)
            if kmatch:
                known_hit[key] = kmatch[1]
                continue
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1((key + case).encode()).hexdigest()[:10]))
            json.dump({"property": pid, "tier": tier, "explorer": j["src"], "mode": j.get("mode", ""),
                       "key": key, "case": case, "message": msg}, open(rp, "w"), indent=1)
            reported.append((key, rp, msg, merged["viol_count"].get(key, 1)))
        for k, d in known:
            if k in known_hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, d))
        wall = time.time() - t0
        write_evidence(pid, tier, spec, merged, len(reported), wall, incomplete, known_hit)
        for key, rp, msg, n in reported[:8]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("   key=%s occurrences=%d: %s" % (key, n, msg.strip().split("\n")[0][:600]))
        print("%s %s: %d executions, %d states, %d transitions, %d violation keys, %.1f s%s" % (
            pid, tier, merged["evaluations"], merged["states"], merged["transitions"], len(reported), wall,
            "" if not incomplete else " INCOMPLETE shards: %s" % incomplete))
        if reported:
            return 1
        if incomplete:
            print("INCOMPLETE property=%s: exploration did not finish inside its time budget" % pid)
            return 2
        if merged["evaluations"] == 0:
            print("VACUOUS property=%s: nothing was explored" % pid)
            return 2
        return 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def write_evidence(pid, tier, spec, m, nviol, wall, incomplete, known_hit):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = m["samples"][:8] or ["(none recorded)"]
    # flat, one name per count: complete executions of the real code compared with the oracle
    # are traces_validated_against_impl; `evaluations` appears only where it counts something else
    if spec["level"] == "model_checking":
        coverage = {"states": m["states"], "transitions": m["transitions"],
                    "traces_validated_against_impl": m["traces_validated"]}
        if m["evaluations"] != m["traces_validated"]:
            coverage["evaluations"] = m["evaluations"]
    else:
        coverage = {"evaluations": m["evaluations"], "distinct_nontrivial": m["distinct"]}
        if m["transitions"]:
            coverage["transitions"] = m["transitions"]
        if m["states"]:
            coverage["states"] = m["states"]
    coverage["rule"] = spec.get("nontrivial", "")
    coverage["samples"] = samples
    coverage["exhaustive"] = not incomplete
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": spec["level"],
          "coverage": coverage,
          "wall_s": round(wall, 2), "violations": nviol,
          "assumptions": spec.get("assumptions", []) + ["bounds (%s): %s" % (tier, spec["bounds"][tier])]}
    if m["outcomes"]:
        ev["coverage"]["outcome_classes"] = dict(sorted(m["outcomes"].items(), key=lambda x: -x[1])[:40])
    if m["info"]:
        ev["coverage"]["info"] = m["info"]
    if known_hit:
        ev["coverage"]["known_findings_observed"] = list(known_hit)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


def replay(path):
    r = json.load(open(path))
    spec = CHECKS[r["property"]]
    j = next(x for x in spec["explorers"] if x["src"] == r["explorer"] and x.get("mode", "") == r["mode"])
    bdir = tempfile.mkdtemp(prefix="vmc-replay-")
    try:
        b, c = compile_one(j, bdir)
        x = sh(c)
        if x.returncode:
            print(x.stdout)
            return 2
        rc, rep, _, tail = run_shard(b, j, r["tier"], 0, 1, bdir, {}, 600, replay=r["case"])
        print(tail)
        print("replay exit code:", rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        sys.exit(check(a[1], a[2] if len(a) > 2 else "quick"))
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["list"]:
        for k, v in CHECKS.items():
            print(k, [(e["src"], e.get("mode", "")) for e in v["explorers"]])
        sys.exit(0)
    print(__doc__)
    sys.exit(2)
