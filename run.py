#!/usr/bin/env python3
"""Runs the check of one property: build, model-check, replay, validate traces.  usage: run.py PNN [quick|thorough] [--case ID] [--setup]"""
import json, os, re, subprocess, sys, time, fcntl, shutil, glob
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "tools"))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; cd %s/harness && CARGO_TARGET_DIR=%s exec cargo build --offline --locked" % (ROOT, TARGET)])
    if r.returncode != 0:
        die("harness build failed:\n" + r.stdout[-6000:])
    return os.path.join(TARGET, "debug", "nyx-conformance")

def tlc(work, module, cfg, workers, env=None, timeout=850, heap="4g"):
    e = dict(os.environ); e.update(env or {})
    meta = os.path.join(work, "meta-%s-%s" % (module, os.path.basename(cfg)) + (env or {}).get("CHUNK", ""))
    os.makedirs(meta, exist_ok=True)
    cp = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", cp, "-Dtlc2.tool.impl.Tool.probabilistic=false",
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, os.path.join(SPEC, module + ".tla")]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")) + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)

def main():
    if "--setup" in sys.argv:
        build(); print("setup done"); return
    prop = sys.argv[1]
    tier = "quick"
    if len(sys.argv) > 2 and not sys.argv[2].startswith("-"): tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else None
    t0 = time.time()
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + "/scratch", exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build)
        # 1. exhaustive exploration of the design models; they also emit the scenarios
        models = []
        for cfg in sorted(glob.glob(os.path.join(SPEC, prop + "M*.cfg"))):
            b = os.path.basename(cfg)[:-4]
            th = b.endswith("_thorough")
            base = b[:-9] if th else b
            if tier == "quick" and th: continue
            if tier == "thorough" and not th and os.path.exists(os.path.join(SPEC, base + "_thorough.cfg")): continue
            models.append((re.match(r"P\d+M[A-Za-z0-9]*", base).group(0), cfg))
        fm = [(m, c, ex.submit(tlc, work, m, c, 4)) for m, c in models]
        states = trans = 0
        scen, mdesc = [], []
        for m, c, f in fm:
            rc, out = f.result()
            if rc != 0: die("model %s failed (rc %d):\n%s" % (m, rc, "\n".join(l for l in out.splitlines() if "SCEN" not in l)[-6000:]))
            g, d = counts(out)
            states += d; trans += g
            mdesc.append(dict(module=m, config=os.path.basename(c), generated=g, distinct=d))
            for l in re.findall(r'"SCEN (.*)"\s*$', out, re.M): scen.append(l.replace('\\"', '"'))
        binp = fb.result()
    scen = sorted(set(scen))
    with open(work + "/scen.ndjson", "w") as f: f.write("".join(s + "\n" for s in scen))
    # 2. replay into the real code
    trace = work + "/trace.ndjson"
    cmd = [binp, prop, "--seed", str(seed), "--tier", tier, "--scen", work + "/scen.ndjson", "--out", trace, "--scratch", work + "/scratch"]
    if only: cmd += ["--case", only]
    env = dict(os.environ, RUST_BACKTRACE="0", NYX_LOG="off")
    t1 = time.time()
    try:
        r = sh(cmd, env=env, timeout=600 if tier == "quick" else 5000, cwd=work)
    except subprocess.TimeoutExpired:
        die("harness did not finish in time")
    t2 = time.time()
    if r.returncode != 0:
        if r.returncode < 0:   # the code under test took the whole process down
            with open(work + "/crash.txt", "w") as f: f.write(" ".join(cmd) + "\n" + r.stdout[-4000:])
            print(r.stdout[-2000:]); print("VIOLATION property=%s replay=%s" % (prop, work + "/crash.txt")); sys.exit(1)
        die("harness failed (rc %d):\n%s" % (r.returncode, r.stdout[-4000:]))
    # 3. validate the traces against the specification
    cases, order = {}, []
    with open(trace) as f:
        for l in f:
            m = re.match(r'\{"c":"([^"]*)"', l)
            c = m.group(1) if m else json.loads(l)["c"]
            if c not in cases: cases[c] = []; order.append(c)
            cases[c].append(l)
    if not order: die("empty trace")
    nev = sum(len(v) for v in cases.values())
    nchunk = max(1, min(8, nev // 1500))
    chunks = [[] for _ in range(nchunk)]
    for j, c in enumerate(order): chunks[j % nchunk].append(c)
    tmod = prop + "T"
    with ThreadPoolExecutor(8) as ex:
        fs = []
        for j, ch in enumerate(chunks):
            p = "%s/trace-%d.ndjson" % (work, j)
            with open(p, "w") as f:
                for c in ch: f.writelines(cases[c])
            fs.append(ex.submit(tlc, work, tmod, os.path.join(SPEC, "T.cfg"), 1, {"TRACE": p, "CHUNK": str(j)}, 850 if tier == "quick" else 5000, "3g"))
        rej = []
        for f in fs:
            rc, out = f.result()
            if "DONE" not in out or rc != 0: die("trace validation of %s failed (rc %d):\n%s" % (prop, rc, out[-6000:]))
            g, d = counts(out); states += d; trans += g
            for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
                rej.append((m.group(1), sorted(re.findall(r'"([^"]*)"', m.group(3)))))
            if out.count('"REJECT"') != len(re.findall(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}\s*>>', out)):
                die("could not parse a REJECT line:\n" + out[-4000:])
    # 4. verdict
    kf = [k for k in json.load(open(os.path.join(ROOT, "KNOWN_FINDINGS.json")))["findings"] if k["property"] == prop and k.get("status") == "known"]
    hit, viol = {}, []
    for c, cl in rej:
        tag = json.loads(cases[c][0]).get("kf", "")
        k = next((k for k in kf if tag and k["id"] == tag and set(cl) <= set(k["clauses"])), None)
        if k: hit.setdefault(k["id"], []).append(c)
        else: viol.append((c, cl))
    for k in kf:
        if k["id"] in hit: print("KNOWN-FINDING: property=%s %s: %s (cases %s)" % (prop, k["id"], k["what"], ",".join(hit[k["id"]][:5])))
    level = "model_checking"
    kinds = {}
    for c in order:
        for l in cases[c]:
            m = re.search(r'"k":"([^"]*)"', l)
            kinds[m.group(1)] = kinds.get(m.group(1), 0) + 1
    smp = [[json.loads(l) for l in cases[c][:3]] for c in (order[:1] + order[len(order)//2:len(order)//2+1])]
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(states=states, transitions=trans, traces_validated_against_impl=len(order), trace_events=nev, event_kinds=kinds,
                      scenarios_from_model=len(scen), models=mdesc, samples=smp, known_finding_cases=sum(len(v) for v in hit.values())),
        assumptions=["TLC evaluates the specification correctly", "the harness reports faithfully what the public API of nyx returned",
                     "real numbers are compared as scaled integers with the tolerances stated in the specification",
                     "no ephemeris kernels are available offline: synthetic almanacs stand in for them"],
        wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d model states, %d cases, %d events, %d rejected; harness %.1fs, total %.1fs" % (prop, tier, states, len(order), nev, len(rej), t2 - t1, time.time() - t0))
    for f in glob.glob(work + "/trace-*.ndjson"): os.remove(f)
    shutil.rmtree(work + "/scratch", ignore_errors=True)
    if viol:
        rp = work + "/violation.ndjson"
        with open(rp, "w") as f:
            for c, cl in viol[:50]:
                f.write(json.dumps(dict(case=c, clauses=cl, rerun="VERIF_SEED=%d python3 /verif/run.py %s %s --case %s" % (seed, prop, tier, c))) + "\n")
                f.writelines(cases[c])
        hist = {}
        for c, cl in viol: hist.setdefault(",".join(cl), []).append(c)
        for k, v in sorted(hist.items(), key=lambda x: -len(x[1]))[:25]: print("  %s: %d cases, e.g. %s" % (k, len(v), v[:4]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)

if __name__ == "__main__":
    main()
