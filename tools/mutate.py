#!/usr/bin/env python3
"""Development only: mutates the headers of a copy of /repo/include and runs the harnesses against each mutant.
   mutate.py HEADER [--max N] [--seed N] [--ids C01,C02] [--out FILE]
Survivors are written to FILE (JSON lines) to be looked at by hand: equivalent, outside of the properties, or missed."""
import sys, os, re, json, random, shutil, subprocess, hashlib, argparse, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, CONFIGS
import check as drv

HDR = {
 "small_vector.hpp": ["C01","C02","C03","C28","C29","C32"], "static_vector.hpp": ["C04","C03","C28","C29","C32"], "pod_vector.hpp": ["C05","C06","C28"],
 "flat_map.hpp": ["C07","C03","C28","C29","C32"], "flat_set.hpp": ["C08","C03","C28","C29"], "dynamic_bitset.hpp": ["C09"], "expected.hpp": ["C10","C29","C32"], "any.hpp": ["C11","C29","C32"],
 "ufunction.hpp": ["C12","C29"], "sentry.hpp": ["C13"], "span.hpp": ["C14","C32"], "memory_view.hpp": ["C14","C32"], "stride_span.hpp": ["C15","C32"], "poly_span.hpp": ["C15","C32"],
 "make_ptr.hpp": ["C26"], "shared_from.hpp": ["C26"], "generator.hpp": ["C16"], "mem_streambuf.hpp": ["C17","C18"], "rstream.hpp": ["C19"],
 "data_mutex.hpp": ["C20"], "mutex.hpp": ["C21"], "atomic_shared_ptr_storage.hpp": ["C22"], "atomic.hpp": ["C23"], "time_t.hpp": ["C24"], "pmr_allocator.hpp": ["C25"],
 "qalgorithm.hpp": ["C27"], "strutil.hpp": ["C27"], "utility.hpp": ["C27"], "type_traits.hpp": ["C27"], "transparent_umap.hpp": ["C30"], "throw_ex.hpp": ["C31"],
}
SNAP = f"/tmp/mut-snap-{os.getpid()}"
CONC = {"C20", "C21", "C22", "C23"}

OPS = [
 (r"(?<![<>=!\-+*/&|^%])<=(?!=|>)", "<"), (r"(?<![<>=!\-])>=(?!=)", ">"), (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"(?<= )<(?= )", ">"), (r"==", "!="), (r"!=", "=="),
 (r"&&(?= )", "||"), (r"\|\|", "&&"), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\+(?= )[^;,)]+", ""), (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="),
 (r"(?<=[( ])!(?=[a-zA-Z_(])", ""), (r"(?<![\w.\"#])0(?![\w.])", "1"), (r"(?<![\w.\"#+])1(?![\w.])", "0"), (r"(?<![\w.\"#+])1(?![\w.])", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"std::move\(", "("), (r"std::forward<[^<>()]*>\(", "("), (r"std::forward<[^<>()]*>\(", "std::move("), (r"(?<= )&(?= )", "|"), (r"(?<= )\|(?= )", "&"), (r"(?<= )<<(?= )", ">>"), (r"(?<= )>>(?= )", "<<"), (r"~(?=[a-z(])(?!\w+\(\))", ""),
 (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"), (r"(?<= )%(?= )", "/"), (r"\bfirst\b(?=[;,)])", "last"), (r"\blast\b(?=[;,)])", "first"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"),
 (r"memory_order_(acquire|release|acq_rel|seq_cst)", "memory_order_relaxed"), (r"\bif \((?!constexpr)(.*)\)\s*$", "if (true)"), (r"\bif \((?!constexpr)(.*)\)\s*$", "if (false)"), (r"\bif \((?!constexpr)([^()]*(?:\([^()]*\)[^()]*)*)\) ", "if (false) "), (r"\bif \((?!constexpr)([^()]*(?:\([^()]*\)[^()]*)*)\) ", "if (true) "),
 (r"size\(\)", "capacity()"), (r"m_end\b", "m_begin"), (r"m_begin\b", "m_end"), (r"\bnum\b", "1"), (r"\bconst &", "&"), (r"nullptr", "(decltype(nullptr))0"),
]
STMT = re.compile(r"^\s*[^#/\s{}][^{}]*;\s*(//.*)?$")
NOSTMT = re.compile(r"^\s*(return|using|typedef|static_assert|template|friend|public|private|class|struct|namespace|#|constexpr|break|continue|explicit|virtual|const |auto |[A-Za-z_:<>,]+\s+[A-Za-z_]+(\s*=.*|\(.*\).*|\{.*)?;)")

def mutants(path):
    L = open(path).read().split("\n"); out = []; seen = set()
    incomment = False
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("static_assert") or s.startswith("template") or s.startswith("using "): continue
        code, sep, cm = l.partition("//")
        def add(new, what):
            t = "\n".join(L[:i] + [new + sep + cm] + L[i + 1:]); h = hashlib.sha1(t.encode()).hexdigest()
            if new != code and h not in seen: seen.add(h); out.append(dict(line=i + 1, op=what, old=l.strip(), new=(new).strip(), text=t))
        for pat, rep in OPS:
            if rep == "(decltype(nullptr))0": continue
            for m in re.finditer(pat, code):
                add(code[:m.start()] + rep + code[m.end():], f"{pat} -> {rep}")
        if STMT.match(l) and (not NOSTMT.match(l) or re.match(r"^\s*return \*this;", l) is None and re.match(r"^\s*[\w.\->]+(\(|\+\+|--|\s*[-+|&]?=)", l) and not NOSTMT.match(l)):
            add(re.match(r"^\s*", l).group(0) + ";", "delete statement")
        if re.match(r"^\s*(\+\+|--)", l): add(re.match(r"^\s*", l).group(0) + ";", "delete statement")
        m = re.match(r"^(\s*)return (?!\*this)(.+);\s*$", code)
        if m: add(m.group(1) + "return !(" + m.group(2) + ");", "negate return") if re.search(r"==|!=|<|>|empty|bool|has_|\btrue|\bfalse", m.group(2)) else None
    return out

def jobs_for(ids, per):
    js = []; seen = set()
    for c in ids:
        js0 = CHECKS[c]["jobs"]; cfgs = []
        for j in js0:
            if j["cfg"] not in cfgs: cfgs.append(j["cfg"])
        use = cfgs[:1] if c not in CONC else ["ctsan17inj", "casan17"]
        if c == "C32": js0 = [j for j in js0 if j["defs"] in (("VF_EH=1",), ("VF_EH=3",), ("VF_EH=3","NDEBUG"))]
        for j in js0:
            if j["cfg"] not in use or j.get("suites") == "huge": continue
            k = (j["src"], j["cfg"], j.get("defs"), j.get("suites"))
            if k in seen: continue
            seen.add(k); js.append(dict(j, scale=max(0.3, (j.get("scale") or 1) * per)))
    return js

def run(mut, hdr, js, wid, base):
    d = f"{base}/w{wid}"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(SNAP, d + "/include")
    open(f"{d}/include/itlib/{hdr}", "w").write(mut["text"])
    r = dict(header=hdr, line=mut["line"], op=mut["op"], old=mut["old"], new=mut["new"], result="survived")
    for j in js:
        c = CONFIGS[j["cfg"]]; exe = d + "/h"
        b = subprocess.run([c["cxx"]] + c["flags"] + ["-D" + x for x in j.get("defs", ())] + ["-I" + d + "/include", "-I" + V + "/harness", V + "/harness/" + j["src"], "-o", exe] + c.get("libs", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if b.returncode: r["result"] = "no compile"; break
        a = [exe, "--scale", str(j["scale"]), "--out", d + "/o.json"] + (["--suites", j["suites"]] if j.get("suites") else [])
        try: p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=drv.ENV, timeout=100, text=True, errors="replace", cwd=d)
        except subprocess.TimeoutExpired: r["result"] = "hung"; r["by"] = j["src"]; break
        if p.returncode:
            m = re.search(r"FAIL key=(\S+)", p.stdout); r["result"] = "killed"; r["by"] = j["src"]; r["key"] = m.group(1) if m else (drv.san_key(p.stdout, p.returncode) or f"rc{p.returncode}"); break
    return r

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("header"); ap.add_argument("--max", type=int, default=10000); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--ids"); ap.add_argument("--out"); ap.add_argument("--per", type=float, default=0.15); ap.add_argument("-j", type=int, default=8); ap.add_argument("--list", action="store_true")
    o = ap.parse_args()
    if os.path.exists(SNAP): shutil.rmtree(SNAP)
    subprocess.run(f"mkdir -p {SNAP}; git -C /repo archive HEAD include | tar x -C {SNAP} --strip-components=1", shell=True, check=True)
    ms = mutants(SNAP + "/itlib/" + o.header); random.Random(o.seed).shuffle(ms); ms = ms[:o.max]
    if o.list:
        for m in ms: print(m["line"], m["op"], "|", m["new"])
        sys.exit()
    js = jobs_for((o.ids or ",".join(HDR[o.header])).split(","), o.per)
    base = f"/tmp/mut-{o.header}"; os.makedirs(base, exist_ok=True); out = o.out or f"/tmp/mut-results-{o.header}.jsonl"
    import queue; q = queue.Queue(); [q.put(i) for i in range(o.j)]; n = {}
    t0 = time.time()
    def work(m):
        w = q.get()
        try: return run(m, o.header, js, w, base)
        finally: q.put(w)
    with open(out, "w") as f, ThreadPoolExecutor(o.j) as ex:
        for r in ex.map(work, ms):
            n[r["result"]] = n.get(r["result"], 0) + 1; f.write(json.dumps(r) + "\n"); f.flush()
    shutil.rmtree(base, ignore_errors=True); shutil.rmtree(SNAP, ignore_errors=True)
    print(o.header, n, f"{time.time() - t0:.0f} s")
