#!/usr/bin/env python3
"""Authoring aid for planted bugs (not used by any check).
seed.py make ID PROP FILE  <<< JSON {"edits":[[old,new],...],"needs":..,"breaks":..,"main":"rust source of demo"}   writes /verif/seeded/ID
seed.py test ID...   builds, runs the stable tests, the demo and the check with the patch applied, then reverts"""
import json, os, subprocess, sys
B = os.environ.get("SHADOW", "")  # test in the copy $SHADOW/{repo,verif,vp} instead
R, S = "/repo", "/verif/seeded"
TR, TV, VP = (B + "/repo", B + "/verif", B + "/vp") if B else ("/repo", "/verif", "/opt/vp")
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: exit 0 iff the property holds on its input.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/tmp" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
nyx-space = { path = "$repo/nyx-core" }
anise = { version = "0.10.2", features = ["analysis"] }
hifitime = "4.3.0"
nalgebra = "0.35"
indexmap = "2.6.0"
rand = "0.10"
rand_pcg = "0.10"
serde_json = "1"
[profile.dev]
debug = false
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-C link-arg=-fuse-ld=lld" RUSTC_WRAPPER=
cd "$d" && cargo build --offline -q 2> "$d/log" || { tail -30 "$d/log"; exit 3; }
cd "$d/tmp" && timeout 120 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): sh("git -C /repo checkout -- .")
if sys.argv[1] == "make":
    _, _, i, prop, f = sys.argv[:5]
    j = json.load(sys.stdin)
    assert sh("git -C /repo status --short").stdout == "", "dirty repo"
    try:
        for e in j["edits"]:
            ff = f if len(e) == 2 else e[2]
            p = R + "/" + ff; t = open(p).read()
            assert t.count(e[0]) == 1, (t.count(e[0]), e[0])
            open(p, "w").write(t.replace(e[0], e[1]))
        d = sh("git -C /repo diff").stdout
        r = sh(". /opt/vp/env.sh; cd /repo/nyx-core && cargo check --offline --lib -q 2>&1 | grep -E '^(error|warning: unused)' -A5")
        print(r.stdout)
    finally: clean()
    o = S + "/" + i; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d); open(o + "/demo.sh", "w").write(DEMO); os.chmod(o + "/demo.sh", 0o755)
    open(o + "/main.rs", "w").write(j["main"])
    json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["breaks"]}, open(o + "/meta.json", "w"), indent=1)
else:
    fast = "--nocheck" in sys.argv
    for i in [a for a in sys.argv[2:] if not a.startswith("--")]:
        o = S + "/" + i; prop = json.load(open(o + "/meta.json"))["property"]
        assert sh("git -C %s status --short" % TR).stdout == "", "dirty repo"
        if "--checkonly" not in sys.argv:
            r = sh("cd %s && bash %s/demo.sh" % (TR, o)); print(i, "demo clean rc", r.returncode, r.stdout[-300:] if r.returncode else "", flush=True)
        try:
            r = sh("git -C %s apply %s/patch.diff" % (TR, o)); assert r.returncode == 0, r.stdout
            if "--checkonly" not in sys.argv:
                r = sh("cd %s && bash %s/demo.sh" % (TR, o)); print(i, "demo patched rc", r.returncode, r.stdout[-300:], flush=True)
                r = sh("bash %s/build.sh" % VP); print("build", r.returncode)
                r = sh("bash %s/test.sh /tmp/seed-t.json" % VP)
                b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/seed-t.json'))
                print("broken stable tests:", sorted(set(b["stable"]) - set(t["passed"]))[:6], flush=True)
            if not fast:
                r = sh("cd %s && VERIF_SEED=1 python3 run.py %s quick" % (TV, prop))
                print(i, prop, "check rc", r.returncode, [l[:300] for l in r.stdout.splitlines() if "VIOLATION" in l or "REJECT" in l or "clauses" in l][:4], flush=True)
        finally: sh("git -C %s checkout -- ." % TR)
