#!/usr/bin/env python3
"""Driver of every check: check.py <property id> [--tier quick|thorough] [--seed N]
   check.py --replay <file>     runs the failing case of a replay file again
   check.py --setup             verifies the toolchain

Builds the property's harnesses from /repo/include as it is now, runs them, decides.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: no answer."""
import sys, os, json, subprocess, hashlib, time, struct, re, shutil, signal
from concurrent.futures import ThreadPoolExecutor
import threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ITLIB_REPO", "/repo")          # overridden only by development tools
BUILD = os.environ.get("VF_BUILD", os.path.join(V, "build"))
EVID = os.environ.get("VF_EVIDENCE", os.path.join(V, "evidence"))
REPLAY = os.environ.get("VF_REPLAY", os.path.join(V, "replay"))
NCPU = os.cpu_count() or 4
STALL_S = 100          # no progress at all for this long: killed, run again once
HARD_S = 780           # whole check

sys.path.insert(0, V)
from checks import CHECKS, CONFIGS, EXTRA

def include_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include", "itlib"), os.path.join(V, "harness")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(f.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

class CompileError(Exception): pass

_digest = None
def build(src, cfg, defs=()):
    """Compiles harness/<src> in configuration cfg; content-addressed, so never stale."""
    global _digest
    if _digest is None: _digest = include_digest()
    c = CONFIGS[cfg]
    cmd = [c["cxx"]] + c["flags"] + ["-D" + d for d in defs] + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "harness")]
    key = hashlib.sha256((_digest + src + " ".join(cmd) + repr(EXTRA.get(src, ""))).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, f"{os.path.splitext(src)[0]}-{cfg}-{key}")
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + f".{os.getpid()}.{threading.get_ident()}.tmp"
    extra = EXTRA.get(src, {})   # more translation units, and shared libraries named after the executable
    h = lambda f: os.path.join(V, "harness", f)
    todo = [cmd + [h(src)] + [h(f) for f in extra.get("objs", ())] + ["-o", tmp] + c.get("libs", []) + (["-ldl"] if extra else [])]
    for name, (f, flags) in extra.get("shared", {}).items():
        todo.append(cmd + list(flags) + ["-shared", "-fPIC", "-fvisibility=hidden", h(f), "-o", f"{tmp}.{name}.so"])
    with ThreadPoolExecutor(len(todo)) as ex:
        rs = list(ex.map(lambda t: subprocess.run(t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), todo))
    for r in rs:
        if r.returncode: raise CompileError(f"{src} [{cfg}]:\n" + r.stdout[:6000])
    if include_digest() != _digest: raise CompileError("the sources changed during the build")  # never keep a binary of something else
    for name in extra.get("shared", {}): os.replace(f"{tmp}.{name}.so", f"{out}.{name}.so")
    os.replace(tmp, out)
    return out

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=6000:handle_abort=1:alloc_dealloc_mismatch=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=87",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
    "LC_ALL": "C", "TZ": "UTC",
})

def san_key(text, rc):
    """A stable key for a sanitizer report or crash."""
    m = re.search(r"ERROR: AddressSanitizer: ([a-zA-Z0-9_\-]+)", text)
    if m: return "san.asan." + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z A-Z\-]+?) \(", text)
    if m: return "san.tsan." + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]{0,100})", text)
    if m:
        t = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))
        return "san.ubsan." + re.sub(r"[^A-Za-z]+", "-", t)[:50].strip("-")
    if "Sanitizer" in text and "FATAL" in text: return None
    if "terminate called" in text: return "crash.terminate"
    if "Assertion" in text: return "crash.assertion"
    if rc is not None and rc < 0: return "crash.signal-" + signal.Signals(-rc).name
    return None

class Result:
    def __init__(s): s.violation = None; s.error = None; s.stats = None; s.hashes = None; s.stalled = False; s.stderr = ""; s.args = None; s.rc = None

def run_shard(exe, args, tag, deadline):
    """Runs one shard under a progress watchdog."""
    base = os.path.join(BUILD, "run", f"{os.getpid()}-{tag}")
    os.makedirs(os.path.dirname(base), exist_ok=True)
    files = {k: base + "." + k for k in ("stats", "hash", "prog", "err", "outp")}
    for f in files.values():
        if os.path.exists(f): os.remove(f)
    res = Result()
    cmd = [exe] + args + ["--out", files["stats"], "--hashes", files["hash"], "--prog", files["prog"]]
    res.args = [exe] + args
    with open(files["err"], "wb") as ef, open(files["outp"], "wb") as of:
        p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=ENV, start_new_session=True, cwd=BUILD)
    last, last_t = None, time.time()
    while True:
        try:
            p.wait(timeout=0.5 if time.time() - last_t < 5 else 2); break
        except subprocess.TimeoutExpired: pass
        try:
            with open(files["prog"], "rb") as f: cur = f.read(16)
        except OSError: cur = b""
        now = time.time()
        if cur != last: last, last_t = cur, now
        if now - last_t > STALL_S or now > deadline:
            res.stalled = now - last_t > STALL_S
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
            if not res.stalled: res.error = "out of time"
            break
    res.rc = p.returncode
    out = open(files["outp"], errors="replace").read()
    err = open(files["err"], errors="replace").read()
    res.stderr = err[-20000:]
    suite, idx, log = "?", 0, ""
    try:
        b = open(files["prog"], "rb").read()
        ticks, idx = struct.unpack("QQ", b[:16]); suite = b[16:80].split(b"\0")[0].decode()
        n = struct.unpack("I", b[80:84])[0]; log = b[88:88 + n].decode(errors="replace")
    except Exception: pass
    m = re.search(r"^FAIL key=(\S+) suite=(\S+) idx=(\d+) msg=(.*)$", out, re.M)
    if m:
        res.violation = dict(key=m.group(1), suite=m.group(2), idx=int(m.group(3)), msg=m.group(4), log=log)
    elif res.stalled or res.error: res.where = (suite, idx, log)
    elif p.returncode == 0: pass
    elif p.returncode == 12 or "HARNESS-ERROR" in err: res.error = "harness error: " + err[-2000:] + out[-500:]
    else:
        k = san_key(err + out, p.returncode)
        if k is None: res.error = f"unexplained end, status {p.returncode}: " + err[-3000:]
        else:
            head = next((l for l in err.splitlines() if "ERROR:" in l or "runtime error" in l or "WARNING: ThreadSan" in l or "terminate" in l), "")
            res.violation = dict(key=k, suite=suite, idx=idx, msg=head[:400], log=log)
    res.where = (suite, idx, log)
    if os.path.exists(files["stats"]):
        try: res.stats = json.load(open(files["stats"]))
        except Exception as e:
            if not res.violation and not res.error and not res.stalled: res.error = f"bad stats: {e}"
    if os.path.exists(files["hash"]):
        try:
            b = open(files["hash"], "rb").read(); nc, ns = struct.unpack("QQ", b[:16])
            a = struct.unpack(f"{nc + ns}Q", b[16:16 + 8 * (nc + ns)])
            res.hashes = (a[:nc], a[nc:])
        except Exception: pass
    for f in files.values():
        try: os.remove(f)
        except OSError: pass
    return res

def load_known(pid):
    known = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) suite=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: known.append(dict(suite=m.group(2), key=m.group(3), text=m.group(4)))
    return known

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup": return setup()
    if a and a[0] == "--replay": return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = os.environ.get("VERIF_SEED", "1")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--seed" in a: seed = a[a.index("--seed") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(seed)
    except ValueError: seed = int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16)
    t0 = time.time(); deadline = t0 + (HARD_S if tier == "quick" else 4 * 3600)
    chk = CHECKS[pid]; known = load_known(pid)
    jobs = [j for j in chk["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    # compile, largest first
    errors, viol, knownhits = [], [], {}
    results = []
    lock = threading.Lock()
    exes = {}; compile_viol = []
    def do_build(j):
        try: return build(j["src"], j["cfg"], j.get("defs", ()))
        except CompileError as e:
            try: return build(j["src"], j["cfg"], j.get("defs", ()))  # not a passing lack of memory
            except CompileError as e: return e
    uniq = []
    for j in jobs:
        k = (j["src"], j["cfg"], tuple(j.get("defs", ())))
        if k not in uniq: uniq.append(k)
    with ThreadPoolExecutor(NCPU) as ex:
        futs = {k: ex.submit(do_build, dict(src=k[0], cfg=k[1], defs=k[2])) for k in uniq}
        for k, f in futs.items():
            r = f.result()
            if isinstance(r, CompileError):
                # the harnesses use nothing but the documented interface: valid calls which are refused
                # break the property (any other failure of the compiler is no answer)
                m = re.search(r"^.*include/itlib/.*(?:error|note|required from|instantiation|multiple definition).*$|^.*(?:multiple definition of|undefined reference to) [`'\"]itlib::.*$", str(r), re.M) if re.search(r"(?<!fatal )error:", str(r)) else None
                if m and "Killed" not in str(r) and "internal compiler" not in str(r): compile_viol.append((k, str(r)))
                else: errors.append("compile: " + str(r))
            else: exes[k] = r
    t_build = time.time() - t0
    for k, text in compile_viol:
        r = Result(); e = next((l for l in text.splitlines() if "error:" in l), "")
        r.violation = dict(key="compile", suite=k[0], idx=0, msg="valid use of the documented interface doesn't compile: " + e[:300], log=""); r.stderr = text
        viol.append((({"src": k[0], "cfg": k[1], "defs": k[2]},), r))
    # run
    tasks = []
    for ji, j in enumerate(jobs):
        k = (j["src"], j["cfg"], tuple(j.get("defs", ())))
        if k not in exes: continue
        shards = j.get("shards", NCPU)
        scale = j.get("scale", 1.0)
        for s in range(shards):
            args = ["--seed", str(seed), "--shard", str(s), "--shards", str(shards), "--scale", str(scale), "--thorough", "1" if tier == "thorough" else "0"]
            if j.get("suites"): args += ["--suites", j["suites"]]
            if chk.get("ignore"): args += ["--ignore", chk["ignore"]]
            tasks.append((j, exes[k], args, f"{pid}-{ji}-{s}", j.get("exclusive", False)))
    stop = threading.Event()
    if viol: tasks = []
    def do_run(t):
        j, exe, args, tag, _ = t
        if stop.is_set(): return t, None
        r = run_shard(exe, args, tag, deadline)
        if r.stalled:
            w1 = r.where
            r2 = run_shard(exe, args, tag + "r", deadline)
            if r2.stalled:
                r2.violation = dict(key="hang", suite=r2.where[0], idx=r2.where[1], msg=f"no progress for {STALL_S} s, twice (first time in {w1[0]}:{w1[1]})", log=r2.where[2]); r2.stalled = False
            r = r2
        if r.violation and not is_known(r.violation): stop.set()
        return t, r
    def is_known(v):
        for kf in known:
            if kf["suite"] == v["suite"] and kf["key"] == v["key"]: return kf
        return None
    par = [t for t in tasks if not t[4]]; exc = [t for t in tasks if t[4]]
    with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(do_run, par))
    # jobs which use several threads themselves run with little company
    with ThreadPoolExecutor(2) as ex: results += list(ex.map(do_run, exc))
    merged = dict(cases=0, ops=0, nontrivial=0, counters={}, registry={}, ledger={}, samples=[])
    cases, states = set(), set(); perjob = {}
    for t, r in results:
        if r is None: continue
        if r.error: errors.append(f"{t[0]['src']} [{t[0]['cfg']}] {t[3]}: {r.error}")
        if r.violation:
            kf = is_known(r.violation)
            if kf: knownhits[kf["text"]] = r.violation
            else: viol.append((t, r))
        elif not r.error and not r.stats: errors.append(f"{t[3]}: no statistics")
        s = r.stats
        if s:
            for k in ("cases", "ops", "nontrivial"): merged[k] += s[k]
            for grp in ("counters", "registry", "ledger"):
                for k, n in s[grp].items(): merged[grp][k] = merged[grp].get(k, 0) + n
            pj = perjob.setdefault(f"{t[0]['src']} [{t[0]['cfg']}{' ' + ' '.join(t[0].get('defs', ())) if t[0].get('defs') else ''}]", dict(cases=0, operations=0, shards=0))
            pj["cases"] += s["cases"]; pj["operations"] += s["ops"]; pj["shards"] += 1
            have = {x["suite"] for x in merged["samples"]}
            merged["samples"] += [x for x in s["samples"] if x["suite"] not in have and len(merged["samples"]) < 12]
        if r.hashes: cases.update(r.hashes[0]); states.update(r.hashes[1])
    # coverage obligations: a run that observed nothing decides nothing
    if not viol and not errors:
        for name, least in chk.get("require", {}).items():
            got = merged["counters"].get(name, 0)
            if got < least: errors.append(f"coverage: {name} observed {got} times, at least {least} expected")
        if merged["cases"] == 0: errors.append("no case was run")
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=chk.get("level", "exploration"),
        coverage=dict(evaluations=merged["cases"], distinct_nontrivial=len(cases), rule=chk["rule"],
            samples=[f"{x['suite']}:{x['idx']}: {x['log']}" for x in merged["samples"]] or ["none"],
            operations_observed=merged["ops"], nontrivial_cases=merged["nontrivial"], distinct_states=len(states),
            counters=dict(sorted(merged["counters"].items())), element_registry=merged["registry"], allocation_ledger=merged["ledger"],
            builds=perjob, exhaustive=False),
        assumptions=chk.get("assumptions", ["the installed compilers, libstdc++ and sanitizer runtimes are correct"]),
        wall_s=round(wall, 2), violations=len(viol))
    ev["coverage"]["build_s"] = round(t_build, 2)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json.tmp"), "w") as f: json.dump(ev, f, indent=1)
    os.replace(os.path.join(EVID, pid + ".json.tmp"), os.path.join(EVID, pid + ".json"))
    for text, v in knownhits.items(): print(f"KNOWN-FINDING: property={pid} {text}")
    if viol:
        t, r = viol[0]; v = r.violation
        os.makedirs(REPLAY, exist_ok=True)
        rp = os.path.join(REPLAY, f"{pid}-{hashlib.sha256((v['key'] + v['suite']).encode()).hexdigest()[:8]}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, src=t[0]["src"], cfg=t[0]["cfg"], defs=list(t[0].get("defs", ())), ignore=chk.get("ignore"),
                key=v["key"], suite=v["suite"], idx=v["idx"], message=v["msg"], operations=v["log"], stderr=r.stderr), f, indent=1)
        print(f"violated: {v['key']} in {v['suite']}:{v['idx']}: {v['msg']}")
        print(f"  operations: ...{v['log'][-600:]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if errors:
        for e in errors: print("ERROR:", e, file=sys.stderr)
        return 2
    print(f"{pid}: held on {merged['cases']} cases, {merged['ops']} operations, {len(cases)} distinct non-trivial ({wall:.1f} s, build {t_build:.1f} s)")
    return 0

def replay(path):
    r = json.load(open(path))
    exe = build(r["src"], r["cfg"], r["defs"])
    args = ["--seed", str(r["seed"]), "--only-suite", r["suite"], "--only-idx", str(r["idx"]), "--thorough", "1" if r["tier"] == "thorough" else "0"]
    if r.get("ignore"): args += ["--ignore", r["ignore"]]
    print(" ".join([exe] + args))
    return subprocess.run([exe] + args, env=ENV).returncode

def setup():
    for t in ("clang++", "g++"):
        if not shutil.which(t): print("missing", t); return 2
    os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    for cfg in ("casan17", "gasan17", "ctsan17"):
        p = os.path.join(BUILD, "probe.cpp"); open(p, "w").write("#include <vector>\nint main(){std::vector<int> v(3);return v[0];}\n")
        c = CONFIGS[cfg]
        r = subprocess.run([c["cxx"]] + c["flags"] + [p, "-o", p + ".exe"])
        if r.returncode or subprocess.run([p + ".exe"], env=ENV).returncode: print("toolchain probe failed", cfg); return 2
    print("setup ok"); return 0

if __name__ == "__main__":
    sys.exit(main())
