#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree, runs them, and reports what their monitors saw.

  run.py setup              build everything
  run.py check <ID>         run one property's check (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  run.py replay <file>      re-run the case of a violation, with its operations written out
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
import checks as C

JOBS = os.cpu_count() or 8
STD = os.environ.get("VERIF_STD", "gnu++14")
COMMON = ["-std=" + STD, "-g1", "-pthread", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-w", "-I" + REPO]
# mode: flags of the harness object, flags of its link, runtime objects
MODES = {
    "asan":   (["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
               ["-fsanitize=address,undefined"], []),
    "native": (["-O2"], [], []),
    "tsan":   (["-O1", "-fsanitize=thread", "-DVF_CONCURRENT"], ["-fsanitize=thread"], []),
    "stress": (["-O2", "-DVF_CONCURRENT"], [], []),
    "casan":  (["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DVF_CONCURRENT"],
               ["-fsanitize=address,undefined"], []),
    "dsched": (["-O1", "-fsanitize=thread", "-Wno-tsan", "-DVF_DSCHED", "-DVF_CONCURRENT"], [], ["dsched"]),
}
BASEENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=4000",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
           "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
           "LSAN_OPTIONS": "exitcode=99"}

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

_lib = None
def library_hash():
    global _lib
    if _lib is None:
        h = hashlib.sha256()
        for d in ("cxxmetrics", "cxxmetrics_prometheus"):
            for base, dirs, files in os.walk(os.path.join(REPO, d)):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(base, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        _lib = h.hexdigest()
    return _lib

def rd(*p):
    return open(os.path.join(ROOT, *p), "rb").read()

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[:3000]))

_lock = threading.Lock(); _locks = {}
def once(key, path, make):
    """Runs make(tmp) unless path exists already."""
    with _lock:
        l = _locks.setdefault(key, threading.Lock())
    with l:
        if not os.path.exists(path):
            tmp = path + ".%d.tmp" % os.getpid()
            make(tmp); os.replace(tmp, path)
    return path

def rt_obj(name, flags=()):
    src = rd("rt", name + ".cpp")
    deps = b"".join(rd("rt", f) for f in sorted(os.listdir(os.path.join(ROOT, "rt"))) if f.endswith(".h"))
    path = os.path.join(BUILD, "rt-%s-%s.o" % (name, sha(src, deps, flags)))
    return once(path, path, lambda t: sh(["g++", "-std=gnu++17", "-O2", "-g1", "-pthread", *flags, "-c", os.path.join(ROOT, "rt", name + ".cpp"), "-o", t]))

def build(harness, mode):
    cf, lf, rts = MODES[mode]
    src = os.path.join(ROOT, "h", harness + ".cpp")
    hdrs = b"".join(rd("h", f) for f in sorted(os.listdir(os.path.join(ROOT, "h"))) if f.endswith(".hpp"))
    hdrs += b"".join(rd("rt", f) for f in sorted(os.listdir(os.path.join(ROOT, "rt"))))
    key = sha(rd("h", harness + ".cpp"), hdrs, library_hash(), cf, lf, COMMON)
    exe = os.path.join(BUILD, "%s-%s-%s" % (harness, mode, key))
    def make(tmp):
        obj = tmp + ".o"
        sh(["g++", *COMMON, *cf, "-I" + os.path.join(ROOT, "h"), "-c", src, "-o", obj])
        objs = [obj, rt_obj("vclock", ("-DVF_DSCHED",) if mode == "dsched" else ())]
        if mode == "dsched":
            sh(["objcopy"] + [x for f in ("memcpy", "memmove", "memset", "memcmp") for x in ("--redefine-sym", "%s=ds_wrap_%s" % (f, f))] + [obj])
        if mode == "tsan":
            objs.append(rt_obj("tsan16", ()))
        objs += [rt_obj(r) for r in rts]
        sh(["g++", *objs, *lf, "-pthread", "-rdynamic", "-o", tmp] + ([] if mode == "dsched" else ["-latomic"]) + ["-ldl"])
        os.unlink(obj)
    return once(exe, exe, make)

def prune():
    """Drops binaries of earlier trees when there are many."""
    fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    fs = sorted((f for f in fs if os.path.isfile(f)), key=os.path.getmtime)
    while len(fs) > 260:
        try: os.unlink(fs.pop(0))
        except OSError: pass

# ------------------------------------------------------------------------------------------------------------- running
class Result:
    pass

def classify(rc, out, err, prog):
    """What went wrong in a run: (key, detail), or None"""
    m = re.search(r"^FAIL key=(\S+)(.*)$", out, re.M)
    if m:
        return m.group(1), m.group(2).strip()
    if rc == 0 and "DONE" in out:
        return None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): (\S+)([^\n]*)", err)
    if m:
        k = "leak" if m.group(1) == "LeakSanitizer" or "leak" in m.group(2) else "asan-" + m.group(2)
        return k, frames(err)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "undefined-behaviour", m.group(1) + " | " + frames(err)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        return "tsan-" + m.group(1).strip().replace(" ", "-"), frames(err)
    m = re.search(r"Assertion '([^']*)' failed", err + out)
    if m:
        return "library-assertion", m.group(1)
    if rc < 0 or rc > 128:
        return "crash", "signal %d %s" % (-rc if rc < 0 else rc - 128, err[-400:].replace("\n", " "))
    return None if rc == 0 else ("exit", "status %d %s" % (rc, (out + err)[-600:].replace("\n", " ")))

def frames(err):
    fs = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]*)", err)
    fs = [re.sub(r"\(.*?\)\s*", " ", f) for f in fs if "cxxmetrics" in f]
    return " <- ".join(f.strip()[:160] for f in fs[:4]) or err[:300].replace("\n", " ")

def symbolise(out):
    """Turns the STACK line of the scheduler and [module+offset] into functions."""
    addrs = re.findall(r"(/\S+?)\+0x([0-9a-f]+)", out)
    by = {}
    for m, a in addrs:
        if m.startswith(BUILD): by.setdefault(m, []).append(a)
    for m, as_ in by.items():
        r = subprocess.run(["addr2line", "-Cfpe", m] + ["%x" % (int(a, 16) - 1) for a in as_], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace").splitlines()
        for a, l in zip(as_, r):
            if "cxxmetrics" in l: out = out.replace("%s+0x%s" % (m, a), "<%s>" % l[:260])
    return out

LOCALES = os.path.join(BUILD, "locale")
def locales():
    """Locales with other decimal points and letters, for the programs that set one; without them those cases run in the C locale."""
    for name in ("de_DE.UTF-8", "de_DE.ISO-8859-1"):
        d = os.path.join(LOCALES, name)
        if os.path.isdir(d): continue
        tmp = "%s.%d" % (d, os.getpid())
        try:
            os.makedirs(LOCALES, exist_ok=True)
            subprocess.run(["localedef", "-i", "de_DE", "-f", name.split(".")[1], tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            os.rename(tmp, d)
        except (OSError, subprocess.SubprocessError): shutil.rmtree(tmp, ignore_errors=True)

def execute(exe, mode, seed, frm, to, only=None, verbose=False, sigs=None, limit=900, work=None):
    env = dict(os.environ); env.update(BASEENV); env["TMPDIR"] = work or "/tmp"; env["LOCPATH"] = LOCALES
    if mode in ("native", "stress"): env["MALLOC_PERTURB_"] = "170"
    prog = (work or "/tmp") + "/progress-%d-%d-%d" % (os.getpid(), threading.get_ident(), frm)
    cmd = [exe, "--seed", str(seed), "--from", str(frm), "--to", str(to), "--progress", prog]
    if mode in ("tsan", "asan", "casan"): cmd = ["setarch", "x86_64", "-R"] + cmd
    if only: cmd += ["--only", only]
    if verbose: cmd += ["--verbose"]
    if sigs: cmd += ["--sigs", sigs]
    r = Result(); r.timeout = False
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True, cwd=work or "/tmp")
    with _lock: RUNNING.add(p)
    try:
        o, e = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, e = p.communicate(); r.timeout = True
    with _lock: RUNNING.discard(p)
    r.rc = p.returncode; r.out = o.decode(errors="replace"); r.err = e.decode(errors="replace")
    r.case, r.scn = frm, ""
    try:
        d = open(prog, "rb").read(); r.case = struct.unpack("<Q", d[:8])[0]; r.scn = d[16:216].split(b"\0")[0].decode(); os.unlink(prog)
    except Exception: pass
    r.bad = None if r.timeout else classify(r.rc, r.out, r.err, prog)
    if r.bad and mode == "dsched": r.bad = (r.bad[0], symbolise(r.bad[1]))
    return r
RUNNING = set()

def known_findings(prop):
    res = []
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) scenario=(\S+)\s*(.*)", l)
            if m and m.group(1) == prop: res.append(m.groups())
    except FileNotFoundError: pass
    return res

def check(prop, tier, seed):
    t0 = time.time()
    spec = C.CHECKS[prop]
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    locales()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check2(prop, tier, seed, spec, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check2(prop, tier, seed, spec, work, t0):
    runs = [(h, m, (q if tier == "quick" else th), o) for h, m, q, th, o in ((r + (None,))[:5] for r in spec["runs"]) if (q if tier == "quick" else th)]
    with ThreadPoolExecutor(JOBS) as ex:
        exes = dict(zip([(h, m) for h, m, n, o in runs], ex.map(lambda a: build(a[0], a[1]), runs)))
    tbuild = time.time() - t0
    tasks = []
    for ri, (h, m, n, o) in enumerate(runs):
        per = max(1, -(-n // (JOBS * 3)))
        a = 0
        while a < n:
            tasks.append((ri, a, min(n, a + per))); a += per
    # interleave the modes
    tasks.sort(key=lambda t: (t[1] / max(1, runs[t[0]][2])))
    known = known_findings(prop)
    state = {"stop": False}; bad = []; seen_known = {}; sigs = set(); stats = {}; maxima = {}; samples = []; evals = 0; per_mode = {}; broken = []
    lock = threading.Lock()
    limit = 300 if tier == "quick" else 7200
    def one(i_t):
        nonlocal evals
        i, (ri, a, b) = i_t
        h, m, n, o = runs[ri]
        retried = False
        while a < b and not state["stop"]:
            sf = work + "/sigs-%d" % i
            r = execute(exes[(h, m)], m, seed, a, b, only=o, sigs=sf, limit=limit, work=work)
            if state["stop"]: return
            if r.timeout:
                if tier != "quick" and not retried: retried = True; continue
                r.bad = ("hang", "no result within %d s" % limit)
            if r.bad is None:
                with lock:
                    for l in r.out.splitlines():
                        w = l.split(" ", 2)
                        if w[0] == "EVALS": evals += int(w[1]); per_mode[h + ":" + m] = per_mode.get(h + ":" + m, 0) + int(w[1])
                        elif w[0] == "STAT": stats[w[1]] = stats.get(w[1], 0) + int(w[2])
                        elif w[0] == "MAX": maxima[w[1]] = max(maxima.get(w[1], 0), int(w[2]))
                        elif w[0] == "SAMPLE" and a == 0: samples.append(m + " " + l[7:])
                    if os.path.exists(sf):
                        d = open(sf, "rb").read(); sigs.update(struct.unpack("<%dQ" % (len(d) // 8), d)); os.unlink(sf)
                return
            if r.bad[0] == "exit" or "NOSCENARIO" in r.out:
                with lock: broken.append("%s %s: %s" % (h, m, r.bad[1])); state["stop"] = True
                return
            k = next((k for k in known if k[1] == r.bad[0] and k[2] in ("*", r.scn)), None)
            with lock:
                if k: seen_known[k] = r; evals += r.case - a
                else: bad.append((h, m, o, r)); state["stop"] = True
            if not k: return
            a = r.case + 1
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, t) for t in enumerate(tasks)]
        while not all(f.done() for f in futs):
            if state["stop"]:
                time.sleep(0.2)
                with lock, _lock:
                    for p in list(RUNNING):
                        try: os.killpg(p.pid, 9)
                        except OSError: pass
            time.sleep(0.03)
        for f in futs: f.result()
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3] or k[1]))
    if broken and not bad:
        print("the check itself failed: " + broken[0]); return 2
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": spec["rule"], "samples": samples[:24] or ["none finished"],
           "cases_per_harness_and_mode": per_mode, "observed": stats, "observed_maxima": maxima}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(tbuild, 2), "violations": len(bad)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if bad:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        h, m, o, r = bad[0]
        path = os.path.join(ROOT, "replays", "%s-%s-%s-%d.json" % (prop, m, re.sub(r"\W", "_", r.bad[0]), r.case))
        json.dump({"property": prop, "harness": h, "mode": m, "seed": seed, "case": r.case, "scenario": r.scn, "only": o, "key": r.bad[0], "detail": r.bad[1],
                   "stdout": symbolise(r.out[-6000:]) if m == "dsched" else r.out[-6000:], "stderr": r.err[-12000:]}, open(path, "w"), indent=1)
        print("%s: %s (scenario %s, case %d, %s mode): %s" % (prop, r.bad[0], r.scn, r.case, m, r.bad[1][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d cases, %d distinct and non-trivial, %.1f s (%.1f s building)" % (prop, evals, len(sigs), time.time() - t0, tbuild))
    return 0

def replay(path):
    d = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True); locales()
    exe = build(d["harness"], d["mode"])
    tries = 1 if d["mode"] in ("asan", "native", "dsched") else 200
    for _ in range(tries):
        r = execute(exe, d["mode"], d["seed"], d["case"], d["case"] + 1, only=d["only"], verbose=True, limit=300)
        if r.bad: break
    print(r.out[-20000:]); print(r.err[-6000:])
    if r.bad or r.timeout:
        print("reproduced: %s %s" % (r.bad or ("hang", ""))); return 1
    print("not reproduced"); return 0

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        if sys.argv[1] == "setup":
            os.makedirs(BUILD, exist_ok=True); prune(); locales()
            todo = sorted({(r[0], r[1]) for c in C.CHECKS.values() for r in c["runs"]})
            with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda a: build(*a), todo))
            print("built %d harness binaries" % len(todo)); return 0
        if sys.argv[1] == "check":
            rc = check(sys.argv[2], tier, seed); prune(); return rc
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
    except BuildError as e:
        print("a harness doesn't build against the tree in %s:\n%s" % (REPO, e)); return 2
    print(__doc__); return 2

if __name__ == "__main__":
    sys.exit(main())
