#!/usr/bin/env python3
"""Runs the monitors of one property:  check.py C01 [--tier quick|thorough] [--replay FILE]

Builds /repo's current sources together with the harness, once per sanitizer variant, drives the
workloads in parallel and decides on what the monitors observed.
Exit 0: held on everything observed.  Exit 1: VIOLATION line.  Exit 2: no verdict (harness problem).
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from checks import CHECKS, VARIANTS, WRAPS

V = os.path.dirname(os.path.abspath(__file__))
O = os.environ.get("VERIF_OUT", V)                         # where evidence and replay files go
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

# ---------------------------------------------------------------- build
def sources():
    return sorted(glob.glob(REPO + "/src/reactor/*.c") + glob.glob(REPO + "/src/picohttpparser/*.c"))

def cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, cmd

def build(work, variants_harness, pool):
    """variants_harness: set of (variant, harness) -> {(variant, harness): executable}"""
    jobs, objs = [], {}
    for v in {v for v, _ in variants_harness}:
        d = VARIANTS[v]
        os.makedirs(f"{work}/{v}", exist_ok=True)
        base = [d["cc"], "-std=gnu2x", "-g", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-w", "-fno-omit-frame-pointer",
                f"-I{REPO}/src", f"-I{V}/harness"] + d["cflags"]
        for s in sources():
            o = f"{work}/{v}/lib_{os.path.basename(s)[:-2]}.o"
            objs.setdefault(v, []).append(o)
            jobs.append(pool.submit(cc, base + d.get("libflags", []) + ["-c", s, "-o", o]))
        for h in {"mon"} | {h for v2, h in variants_harness if v2 == v}:
            jobs.append(pool.submit(cc, base + ["-c", f"{V}/harness/{h}.c", "-o", f"{work}/{v}/h_{h}.o"]))
    for j in jobs:
        rc, out, cmd = j.result()
        if rc: return None, "compile failed: %s\n%s" % (" ".join(cmd), out[:4000])
    exe, jobs = {}, []
    for v, h in variants_harness:
        d = VARIANTS[v]
        e = f"{work}/{v}/{h}"
        exe[v, h] = e
        jobs.append(pool.submit(cc, [d["cc"]] + d["cflags"] + ["-o", e, f"{work}/{v}/h_{h}.o", f"{work}/{v}/h_mon.o"] + objs[v]
                    + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lssl", "-lcrypto", "-lpthread", "-lm"]))
    for j in jobs:
        rc, out, cmd = j.result()
        if rc: return None, "link failed: %s\n%s" % (" ".join(cmd), out[:4000])
    return exe, None

# ---------------------------------------------------------------- run
SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=6000:allocator_may_return_null=0:handle_abort=0:quarantine_size_mb=32:strict_string_checks=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:report_thread_leaks=0:history_size=4",
    "MSAN_OPTIONS": "exitcode=77:halt_on_error=1",
}

def parse_crash(rc, err):
    """-> (key, message) for an abnormal end of the harness"""
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ (?:in )?(\S+) (?:%s/)?(src/\S+?):\d+" % re.escape(REPO), err)
    where = frames[0][0] if frames else "?"
    m = re.search(r"^(?:\S+: )?(\S+?):(\d+): ([^:]+): Assertion `(.*)' failed", err, re.M)
    if m: return "assert:%s" % m.group(3).strip(), m.group(0)
    m = re.search(r"ERROR: (AddressSanitizer|MemorySanitizer): ([\w-]+)", err) or re.search(r"WARNING: (ThreadSanitizer|MemorySanitizer): ([\w -]+?)(?: \(|\n)", err)
    if m: return "%s:%s:%s" % (m.group(1), m.group(2).strip().replace(" ", "-"), where), m.group(0)
    m = re.search(r"^(\S+):(\d+):\d+: runtime error: (.*)$", err, re.M)
    if m: return "ubsan:%s" % (where if where != "?" else os.path.basename(m.group(1))), m.group(0)
    if rc < 0:
        try: n = signal.Signals(-rc).name
        except ValueError: n = str(-rc)
        return "signal:%s" % n, "the process was ended by " + n
    return "exit:%d" % rc, "the process ended with status %d" % rc

class Job:
    def __init__(self, run, exe, first, count): self.run, self.exe, self.first, self.count = run, exe, first, count

def run_one(job, work, seed, tier, stall, single=False):
    d = tempfile.mkdtemp(prefix="j", dir=work)
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "MALLOC_PERTURB_")}
    env.update(SAN); env["TZ"] = env.get("TZ", "UTC"); env["VERIF_CERTS"] = V + "/harness/certs"; env["VERIF_REPO"] = REPO
    argv = [job.exe, job.run["scenario"], str(seed), str(job.first), str(job.count), "1" if tier == "thorough" else "0", d]
    if VARIANTS[job.run["variant"]].get("setarch"): argv = ["setarch", "-R"] + argv
    errf = open(d + "/stderr", "w+b")
    p = subprocess.Popen(argv, stdout=errf, stderr=errf, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
    last, t_last, hang = None, time.monotonic(), None
    while True:
        try:
            p.wait(0.2); break
        except subprocess.TimeoutExpired: pass
        try:
            with open(d + "/progress", "rb") as f: cur = f.read(8)
        except OSError: cur = None
        if cur != last: last, t_last = cur, time.monotonic()
        elif time.monotonic() - t_last > stall:
            hang = int.from_bytes(last or b"\0" * 8, "little") - 1
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait(); break
    try: os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass
    errf.seek(0); err = errf.read(400000).decode("utf-8", "replace"); errf.close()
    res = dict(counts={}, samples=[], viol=None, herr=None, dist=b"", hang=None, case=None, err=err)
    trace = []
    try:
        with open(d + "/out", errors="replace") as f:
            for l in f:
                t = l.rstrip("\n").split("\t")
                if t[0] == "COUNT": res["counts"][t[1]] = res["counts"].get(t[1], 0) + int(t[2])
                elif t[0] == "SAMPLE": res["samples"].append(t[1])
                elif t[0] == "VIOL": res["viol"] = (t[1], t[3]); res["case"] = int(t[2])
                elif t[0] == "TRACE": trace.append("\t".join(t[1:]))
                elif t[0] == "HERR": res["herr"] = t[1]
    except OSError: pass
    try:
        with open(d + "/dist", "rb") as f: res["dist"] = f.read()
    except OSError: pass
    try:
        with open(d + "/progress", "rb") as f: prog = int.from_bytes(f.read(8), "little") - 1
    except OSError: prog = -1
    if hang is not None: res["hang"] = hang
    elif res["viol"] is None and res["herr"] is None and p.returncode != 0:
        if p.returncode == 2 and prog < 0: res["herr"] = "harness did not start: " + err[-500:]
        else:
            res["viol"] = parse_crash(p.returncode, err); res["case"] = prog
    if not trace and res["viol"]:
        try:
            with open(d + "/trace", "rb") as f: b = f.read()
            n = int.from_bytes(b[:4], "little"); k = (len(b) - 4) // 160
            trace = [b[4 + i % k * 160:][:160].split(b"\0")[0].decode("utf-8", "replace") for i in range(max(0, n - k), n)]
        except OSError: pass
    res["trace"] = trace
    shutil.rmtree(d, ignore_errors=True)
    return res

# ---------------------------------------------------------------- known findings
def known():
    out = {}
    try:
        for l in open(V + "/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m: out[m.group(1), m.group(2)] = m.group(3).strip()
    except OSError: pass
    return out

# ---------------------------------------------------------------- main
def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in args: i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    if "--replay" in args: i = args.index("--replay"); replay = json.load(open(args[i + 1])); del args[i:i + 2]
    if tier not in ("quick", "thorough"): tier = "quick"
    pid = replay["property"] if replay else args[0]
    chk = CHECKS[pid]
    t0 = time.monotonic()
    os.makedirs(O + "/evidence", exist_ok=True); os.makedirs(O + "/replay", exist_ok=True)
    ev_path = f"{O}/evidence/{pid}.json"
    try: os.unlink(ev_path)
    except OSError: pass
    work = tempfile.mkdtemp(prefix="vr-", dir=os.environ.get("VERIF_WORK", "/tmp"))
    os.chmod(work, 0o755)
    rc = 2
    try:
        rc = run_check(pid, chk, tier, work, replay, t0, ev_path)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def run_check(pid, chk, tier, work, replay, t0, ev_path):
    seed = SEED
    runs = [dict(r) for r in chk["runs"]]
    for r in runs: r.setdefault("variant", "asan"); r.setdefault("stall", 40); r.setdefault("shards", NCPU)
    if replay:
        seed = replay["seed"]
        runs = [r for r in runs if r["harness"] == replay["harness"] and r["scenario"] == replay["scenario"] and r["variant"] == replay["variant"]]
    pool = cf.ThreadPoolExecutor(NCPU)
    exe, err = build(work, {(r["variant"], r["harness"]) for r in runs}, pool)
    t_build = time.monotonic() - t0
    if err:
        print(err); print(f"{pid}: no verdict: the sources do not build"); return 2
    jobs = []
    for r in runs:
        n = r["cases"][1 if tier == "thorough" and len(r["cases"]) > 1 else 0]
        if replay: jobs.append(Job(r, exe[r["variant"], r["harness"]], replay["case"], 1)); continue
        sh = max(1, min(r["shards"], n))
        for k in range(sh):
            a, b = n * k // sh, n * (k + 1) // sh
            if b > a: jobs.append(Job(r, exe[r["variant"], r["harness"]], a, b - a))
    jobs.sort(key=lambda j: -j.run.get("weight", 1))
    stop = threading.Event()
    kn = known()

    def work_job(j):
        if stop.is_set() and not j.run.get("known"): return None
        retry = 0
        res = run_one(j, work, seed, tier, j.run["stall"])
        if res["hang"] is not None:
            # a stall may be the machine: decide on a re-run of that case alone with more time
            case = max(res["hang"], j.first)
            r2 = run_one(Job(j.run, j.exe, case, 1), work, seed, tier, j.run["stall"] * 1.5, True)
            if r2["hang"] is not None:
                res["viol"] = ("hang:" + j.run["scenario"], "no progress within %d s, twice" % int(j.run["stall"] * 1.5)); res["case"] = case
            elif r2["viol"]: res = r2
            else:
                # inconclusive stall: run the remainder of the shard
                rest = j.first + j.count - (case + 1)
                res["note"] = "stall at case %d did not repeat" % case
                if rest > 0:
                    r3 = run_one(Job(j.run, j.exe, case + 1, rest), work, seed, tier, j.run["stall"])
                    if r3["viol"] or r3["herr"]: res = r3
                    elif r3["hang"] is not None: res["herr"] = "stalled twice in one shard"
        if res["viol"] and j.run.get("only") and not any(res["viol"][0].startswith(o) for o in j.run["only"]):
            res["note"] = "not this property: " + res["viol"][0]; res["viol"] = None; res["skipped"] = 1
        if res["viol"] and (pid, res["viol"][0]) not in kn: stop.set()
        return j, res

    agg, dist, samples, viols, herrs, notes, perrun = {}, set(), [], [], [], [], {}
    for f in cf.as_completed([pool.submit(work_job, j) for j in jobs]):
        out = f.result()
        if out is None: continue
        j, r = out
        name = "%s/%s/%s" % (j.run["variant"], j.run["harness"], j.run["scenario"])
        pr = perrun.setdefault(name, {})
        for k, v in r["counts"].items(): agg[k] = agg.get(k, 0) + v; pr[k] = pr.get(k, 0) + v
        b = r["dist"]
        salt = hashlib.md5((j.run["harness"] + j.run["scenario"]).encode()).digest()[:2]
        dist.update(salt + b[i:i + 8] for i in range(0, len(b), 8))
        samples += [f"[{j.run['variant']}] {s}" for s in r["samples"][:2]]
        if r["viol"]: viols.append((j, r))
        elif r["herr"]: herrs.append(f"{name}: {r['herr']}")
        if r.get("note"): notes.append(f"{name}: {r['note']}")
    # verdicts
    new, seen = [], set()
    for j, r in viols:
        key = r["viol"][0]
        if (pid, key) in kn and j.run.get("known") == key:
            if key not in seen: print(f"KNOWN-FINDING: property={pid} {kn[pid, key]}")
            seen.add(key)
        else: new.append((j, r))
    wall = time.monotonic() - t0
    evals = agg.get("eval", agg.get("cases", 0))
    short = [f"{k} < {m} (observed {agg.get(k, 0)})" for k, m in chk.get("require", {}).items() if agg.get(k, 0) < m]
    evidence = dict(property=pid, tier=tier, seed=seed, level=chk["level"], wall_s=round(wall, 2), violations=len(new),
        coverage=dict(evaluations=evals, distinct_nontrivial=len(dist), rule=chk["rule"], samples=sorted(samples)[:8] or ["none"],
            observed={k: v for k, v in sorted(agg.items())}, per_run=perrun, build_s=round(t_build, 2),
            variants={v: " ".join([VARIANTS[v]["cc"]] + VARIANTS[v]["cflags"]) for v in sorted({r["variant"] for r in runs})},
            known_findings_seen=sorted(seen), notes=notes),
        assumptions=chk.get("assumptions", []))
    if chk.get("exhaustive"): evidence["coverage"]["exhaustive"] = agg.get("exhaustive_done", 0) >= chk["exhaustive"]
    if not replay: json.dump(evidence, open(ev_path, "w"), indent=1)
    if new:
        j, r = new[0]
        os.makedirs(O + "/replay", exist_ok=True)
        rp = f"{O}/replay/{pid}.json"
        json.dump(dict(property=pid, harness=j.run["harness"], scenario=j.run["scenario"], variant=j.run["variant"], seed=seed, case=r["case"],
                       key=r["viol"][0], message=r["viol"][1], trace=r["trace"], stderr=r["err"][-6000:]), open(rp, "w"), indent=1)
        for j, r in new[:3]:
            print(f"{pid}: {j.run['variant']}/{j.run['harness']}/{j.run['scenario']} case {r['case']} seed {seed}: {r['viol'][0]}: {r['viol'][1]}")
            for t in r["trace"][-12:]: print("    " + t)
            if not r["trace"] and r["err"]: print("    " + "\n    ".join(r["err"].splitlines()[:14]))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if herrs:
        print("\n".join(herrs[:5])); print(f"{pid}: no verdict: the harness failed: " + " ".join(herrs[0].split())[:300]); return 2
    if short and not replay:
        print(f"{pid}: no verdict: too little observed: " + "; ".join(short)); return 2
    print(f"{pid}: held on {evals} evaluations, {len(dist)} distinct non-trivial, {round(wall, 1)} s; " + ", ".join(f"{k}={v}" for k, v in sorted(agg.items())))
    return 0

if __name__ == "__main__": main()
