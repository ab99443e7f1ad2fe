#!/usr/bin/env python3
"""Decides one property: python3 tools/check.py <ID>.

1. TLC model-checks the specification of the property (spec/*MC.tla).
2. The conformance harness is rebuilt from /repo and run; it records histories of the real code.
3. TLC checks that every recorded history is a behaviour of the specification (spec/*Trace.tla).

Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: the machinery failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from suites import SUITES
W = os.path.join(V, ".work")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HARNESS_TIMEOUT = 420 if TIER == "quick" else 3600
TLC_TIMEOUT = 420 if TIER == "quick" else 7200

def say(*a):
    print(*a, flush=True)

class Tool(Exception):
    pass

class Refused(Tool):
    pass

def env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER=os.path.join(V, "tools", "rustc-wrap.sh"), RUSTFLAGS="--cfg stabby_verif -Awarnings",
             CARGO_TARGET_DIR=os.path.join(W, "target"))
    return e

REFUSED = r"error\[E0080\]|Invalid canary-spec|Unknown canary|undefined (?:symbol|reference)[^\n]*_(?:canary|stabbied)_"
FEATURES = {"serial": "serde", "foreign": "abi_stable"}  # what must be built apart, as it changes the library's own build
def build(bins, opt=1):
    t = time.time()
    apart = [b for b in bins if b in FEATURES]
    if apart and len(bins) > 1:
        rest = [b for b in bins if b not in FEATURES]
        if rest:
            build(rest, opt)
        for b in apart:
            build([b], opt)
        return time.time() - t
    base = dict(env(), CARGO_PROFILE_DEV_OPT_LEVEL=str(opt))
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(V, "harness", "Cargo.toml")]
    for b in bins:
        cmd += ["--bin", b]
    if apart:
        cmd += ["--features", FEATURES[apart[0]]]
    if "link" in bins:
        cmd += ["--example", "peer"]
    def run(e, timeout):
        p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return -1, "timeout"
    rc, out = run(base, 300)
    if rc != 0 and "error[E" not in out:
        # The parallel front end is experimental: if it may be the one that failed, do without it.
        rc, out = run(dict(base, RUSTC_WRAPPER=""), 480)
    if rc != 0 and re.search(REFUSED, out):
        # A type that the harness instantiates doesn't get through the library's own compile-time checks,
        # or an import and its export don't agree on the names that have the build's parameters in them.
        raise Refused(out)
    if rc != 0:
        raise Tool("the harness does not build against /repo:\n" + out[-6000:])
    return time.time() - t

LIVES = ("E0597", "E0505", "E0499", "E0502", "E0506", "E0515", "E0716", "E0521", "E0621", "E0310", "E0309", "E0491", "E0478")
def probes(manifest, e, dest):
    """What the compiler says of harness/src/bin/lifetimes.rs: which of its lines it refuses, for their lifetimes."""
    src = os.path.join(os.path.dirname(manifest), "src", "bin", "lifetimes.rs")
    try:
        r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", manifest, "--features", "lifetimes", "--bin", "lifetimes", "--message-format=json"],
                           env=dict(e, RUSTC_WRAPPER=""), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=480)
    except subprocess.TimeoutExpired:
        raise Tool("the probes of lifetimes: timeout")
    refused = set()
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or not m["message"]["spans"]:
            continue
        m = m["message"]
        at = [x["line_start"] for x in m["spans"] if x["is_primary"] and x["file_name"].endswith("lifetimes.rs")]
        code = (m.get("code") or {}).get("code")
        if not at or not (code in LIVES or code is None and "lifetime may not live long enough" in m["message"]):
            raise Tool("the probes of lifetimes don't compile for another reason:\n" + m.get("rendered", "")[-4000:])
        refused.update(at)
    if not refused:
        raise Tool("the probes of lifetimes:\n" + r.stderr[-4000:])
    with open(src) as f, open(dest, "w") as g:
        for n, l in enumerate(f, 1):
            if l.startswith("pub fn p"):
                g.write("\t".join(l.rstrip("\n").split("//\t", 1)[1].split("\t")[:3] + ["0" if n in refused else "1"]) + "\n")

def tlc(module, cfg, trace=None, workers=8, heap="6g"):
    """Runs TLC; returns dict(ok, states, generated, out, error)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=W)
    e = dict(os.environ)
    if trace:
        e["TRACE"] = trace
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=TLC_TIMEOUT)
    except subprocess.TimeoutExpired:
        raise Tool(f"TLC {module} {cfg}: timeout")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    ok = "Model checking completed. No error has been found." in out
    return dict(ok=ok, generated=int(m.group(1)) if m else 0, states=int(m.group(2)) if m else 0, out=out)

def mc(jobs, res):
    for module, cfg in jobs:
        t = time.time()
        try:
            r = tlc(module, cfg, workers=4, heap="4g")
            r["wall"] = round(time.time() - t, 1)
        except Tool as e:
            r = dict(ok=False, generated=0, states=0, out=str(e), wall=0)
        res.append((module, cfg, r))

def line_of(path, n):
    with open(path) as f:
        for k, l in enumerate(f, 1):
            if k == n:
                return json.loads(l)

def violation(pid, what, data):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", f"{pid}.replay.json")
    with open(p, "w") as f:
        json.dump(dict(property=pid, what=what, seed=SEED, tier=TIER, **data), f, indent=1)
    say(what)
    say(f"VIOLATION property={pid} replay={p}")

def main():
    pid = sys.argv[1]
    conf = SUITES[pid]
    t0 = time.time()
    os.makedirs(W, exist_ok=True)
    mcs = conf.get("mc_thorough" if TIER == "thorough" else "mc") or conf.get("mc", [])
    res = []
    th = threading.Thread(target=mc, args=(mcs, res))
    th.start()
    bins = sorted({s["bin"] for s in conf["suites"]})
    try:
        bt = build(bins, conf.get("opt", 1))
    except Refused as e:
        i = re.search(REFUSED, str(e)).start()
        violation(pid, "what the harness declares is refused by the library's own checks:\n" + str(e)[i:i + 1500], dict(build=str(e)[-6000:]))
        return 1
    states = trans = 0
    validated = 0
    events = 0
    runs = 0
    samples = []
    per = {}
    known = []
    kf = os.path.join(V, "known-findings.txt")
    if os.path.exists(kf):
        known = [l.strip() for l in open(kf) if l.startswith(f"KNOWN-FINDING: property={pid} ")]
    for s in conf["suites"]:
        out = tempfile.mkdtemp(prefix=f"{pid}-{s['suite']}-", dir=W)
        try:
            e = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER)
            e.update(s.get("env", {}))
            if conf.get("probes"):
                e["VERIF_PROBES"] = os.path.join(out, "probes.tsv")
                probes(os.path.join(V, "harness", "Cargo.toml"), env(), e["VERIF_PROBES"])
            ht = time.time()
            try:
                r = subprocess.run([os.path.join(W, "target", "debug", s["bin"]), s["suite"], out], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=HARNESS_TIMEOUT)
                rc, so, se = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired as x:
                rc, so, se = "timeout", "", ""
            if rc == 3:
                raise Tool(f"harness {s['bin']} {s['suite']}: {so[-2000:]}\n{se[-4000:]}")
            if rc != 0:
                cur = ""
                cp = os.path.join(out, "current.json")
                if os.path.exists(cp):
                    cur = open(cp, errors="replace").read().strip("\0").split("\n")[0]
                if not cur:
                    raise Tool(f"harness {s['bin']} {s['suite']} failed outside of any run (exit {rc}):\n{so[-2000:]}\n{se[-4000:]}")
                violation(pid, f"the code under test crashed, hung or corrupted memory (exit {rc}) in suite {s['suite']} while running: {cur[:1500]}",
                          dict(suite=s["suite"], exit=str(rc), program=cur, stderr=se[-4000:], stdout=so[-2000:]))
                return 1
            m = re.search(r"SUITE (\S+) runs=(\d+) traces=(\d+) events=(\d+)", so)
            if not m:
                raise Tool(f"harness {s['bin']} {s['suite']}: no summary\n{so[-2000:]}{se[-2000:]}")
            runs += int(m.group(2))
            htime = time.time() - ht
            files = s.get("traces", [(s["suite"] + ".ndjson", s["spec"])])
            for fn, spec in files:
                path = os.path.join(out, fn)
                n = sum(1 for _ in open(path))
                if n == 0:
                    raise Tool(f"{fn}: no trace")
                tt = time.time()
                r = tlc(spec, spec + ".cfg", trace=path)
                if not r["ok"]:
                    tids = re.findall(r"^(?:/\\ )?tid = (\d+)", r["out"], re.M)
                    idx = re.findall(r"^(?:/\\ )?i = (\d+)", r["out"], re.M)
                    if tids and ("is violated" in r["out"] or "Error: " in r["out"]):
                        tr = line_of(path, int(tids[-1]))
                        k = int(idx[-1])
                        bad = "is violated" in r["out"]
                        at = k - 1 if bad else k
                        ev = tr["ev"][at] if 0 <= at < len(tr["ev"]) else None
                        last = r["out"].split("State ")[-1][:3000]
                        violation(pid, f"suite {s['suite']}: event {at + 1} of a recorded history is not a behaviour of {spec}: {json.dumps(ev)[:1500]}",
                                  dict(suite=s["suite"], spec=spec, event_index=at + 1, event=ev, program=tr.get("meta", ""), cfg=tr.get("cfg"), history=tr["ev"][: at + 1], tlc=last))
                        return 1
                    raise Tool(f"TLC {spec} on {fn}:\n" + r["out"][-5000:])
                states += r["states"]
                trans += r["generated"]
                validated += n
                per[f"{s['suite']}:{fn}"] = dict(histories=n, tlc_states=r["states"], harness_runs=int(m.group(2)), harness_s=round(htime, 1), tlc_s=round(time.time() - tt, 1))
                say(f"suite {s['suite']} {fn}: {m.group(2)} runs, {n} distinct histories conform to {spec} ({r['states']} states; harness {htime:.1f} s, TLC {time.time()-tt:.1f} s)")
                for k in (1, max(1, n // 2)):
                    l = line_of(path, k)
                    samples.append(dict(suite=s["suite"], history=l["ev"][:12], program=str(l.get("meta", ""))[:400], cfg=l.get("cfg")))
        finally:
            shutil.rmtree(out, ignore_errors=True)
    th.join()
    for module, cfg, r in res:
        if not r["ok"]:
            raise Tool(f"model checking {module} with {cfg} failed:\n" + r["out"][-4000:])
        say(f"model {module} ({cfg}): {r['states']} distinct states, {r['generated']} generated, {r['wall']} s")
    states += sum(r["states"] for *_, r in res)
    trans += sum(r["generated"] for *_, r in res)
    for k in known:
        say(k)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=conf.get("level", "model_checking"), wall_s=round(time.time() - t0, 1),
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=validated, executions=runs, samples=samples[:6],
                            models={f"{m}/{c}": dict(distinct=r["states"], generated=r["generated"]) for m, c, r in res}, suites=per,
                            known_findings=known, build_s=round(bt, 1)))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", f"{pid}.json"))
    say(f"OK property={pid}: {states} states, {validated} histories of the real code, {time.time()-t0:.0f} s (build {bt:.0f} s)")
    return 0

def setup():
    os.makedirs(W, exist_ok=True)
    for opt in (0, 1):
        build(sorted({s["bin"] for c in SUITES.values() if c.get("opt", 1) == opt for s in c["suites"]}), opt)
    return 0

try:
    sys.exit(setup() if sys.argv[1:] == ["--setup"] else main())
except Tool as e:
    say("CHECK ERROR:", e)
    sys.exit(2)
