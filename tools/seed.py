#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from a seed file:  seed.py FILE [--nocheck]
FILE is python: ID, PROPERTY, EDITS=[(path, old, new)], NEEDS, BREAKS, MAIN (demo main.rs), optional FEATURES.
Confirms: builds, existing tests pass, demo fails with it and passes without, and reports what the check says."""
import json, os, subprocess, sys, shutil
V = "/verif"
R = "/repo"
DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Builds the program beside this file against it and runs it.
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$d/main.rs" "$t/src/main.rs"; cp "$r/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<T
[workspace]
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stabby = { path = "$r/stabby", features = ["libc"] }
stabby-abi = { path = "$r/stabby-abi", features = ["std", "libc", "test"] }
T
CARGO_TARGET_DIR="$t/target" cargo build --offline -q --manifest-path "$t/Cargo.toml" 2>"$t/log" || { cat "$t/log"; exit 1; }
timeout 120 "$t/target/debug/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns["ID"]
d = f"{V}/seeded/{ID}"
os.makedirs(d, exist_ok=True)
assert sh(f"git -C {R} status --porcelain").stdout == "", "repo dirty"
open(d + "/main.rs", "w").write(ns["MAIN"])
open(d + "/demo.sh", "w").write(ns.get("DEMO", DEMO))
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
ok = True
try:
    if "--nodemo" not in sys.argv:
        r = sh(f"{d}/demo.sh", cwd=R)
        print("demo on clean tree:", r.returncode, r.stdout[-500:])
        ok &= r.returncode == 0
    for p, o, n in ns["EDITS"]:
        s = open(f"{R}/{p}").read()
        assert s.count(o) == 1, (p, o, s.count(o))
        open(f"{R}/{p}", "w").write(s.replace(o, n))
    open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
    base = sh(f"git -C {R} blame -s HEAD -- {ns['EDITS'][0][0]} | head -0").stdout
    # the changed lines must be original ones
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        print("DOES NOT BUILD", r.stdout[-3000:]); ok = False
    r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    got = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    def names(x):
        return set(x["passed"] if "passed" in x else [t for t, v in x.items() if v in ("pass", "PASS", True)])
    want = set(base.get("stable", base.get("passed", base.get("tests", []))))
    have = set(got.get("passed", []))
    print("tests missing:", sorted(want - have)[:5], len(want), len(have))
    ok &= not (want - have)
    if "--nodemo" not in sys.argv:
        r = sh(f"{d}/demo.sh", cwd=R)
        print("demo with patch:", r.returncode, r.stdout[-600:])
        ok &= r.returncode != 0
    if "--nocheck" not in sys.argv:
        for P in [ns["PROPERTY"]] + ns.get("ALSO", []):
            r = sh(f"./check.sh {P}", cwd=V)
            print("check", P, r.returncode, r.stdout[-900:])
finally:
    sh(f"git -C {R} checkout -- .")
print(ID, "CONFIRMED" if ok else "NOT CONFIRMED")
