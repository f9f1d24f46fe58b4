#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import sys, os, json, time, subprocess, tempfile, re
from concurrent.futures import ThreadPoolExecutor
import build
V = build.V
SEQ = {"C%02d" % i for i in range(1, 10)}
K = dict(PROP=1, CRASH=2, MEM=4, DEADLOCK=8, LIVELOCK=16, HANG=32, THREAD=64, SIGPIPE=128, LEAK=256, FD=512, RACE=1024, HARNESS=2048)
DEFAULT = K["PROP"] | K["CRASH"] | K["MEM"] | K["DEADLOCK"] | K["LIVELOCK"] | K["HANG"] | K["THREAD"] | K["SIGPIPE"]
# properties that are decided by a monitor over every scenario rather than by the scenario's own oracle
ALL_OF = {"C30": DEFAULT | K["LEAK"] | K["FD"]}       # own scenarios only, with more monitors
MASKS = {"C24": K["LEAK"] | K["FD"] | K["MEM"] | K["THREAD"] | K["CRASH"], "C25": K["RACE"]}

def known_for(pid):
    r = []
    for line in open(V + "/KNOWN_FINDINGS.txt"):
        m = re.match(r'known: property=(\S+) at=(\S+) match="([^"]*)" (.*)', line)
        if m and m.group(1) == pid: r.append((m.group(2), m.group(3), m.group(4)))
    return r

def evidence(pid, tier, level, cov, assumptions, wall, violations):
    d = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov, assumptions=assumptions, wall_s=round(wall, 3), violations=violations)
    os.makedirs(V + "/evidence", exist_ok=True)
    f = V + "/evidence/%s.json" % pid
    with open(f + ".tmp", "w") as o: json.dump(d, o, indent=1)
    os.replace(f + ".tmp", f)

def replay_dir():
    d = build.B + "/replay"; os.makedirs(d, exist_ok=True); return d

def run_seq(pid, tier):
    t0 = time.time(); exe = build.build(("seq",))["seq"]; kn = known_for(pid)
    base = replay_dir() + "/" + pid
    for f in os.listdir(replay_dir()):
        if f.startswith(pid + "."): os.unlink(os.path.join(replay_dir(), f))
    out = tempfile.mktemp(dir=replay_dir())
    cmd = [exe, "--prop", pid, "--out", out, "--replay-out", base, "--jobs", "8", "--time", "780" if tier == "thorough" else "600"] + (["--thorough"] if tier == "thorough" else [])
    p = subprocess.run(cmd)
    try: res = json.load(open(out)); os.unlink(out)
    except Exception: print("CHECK-ERROR property=%s enumerator ended with %d" % (pid, p.returncode)); return 2
    bad = []; hurt = []; kf = []
    for s in res:
        if s["harness"]: hurt.append(s)
        elif s["violation"]:
            k = [x for x in kn if x[0] == "seq:" + s["space"] and s["message"].startswith(x[1])]
            if k: kf.append((s, k[0]))
            else: bad.append(s)
    cov = dict(states=sum(s["states"] for s in res), transitions=sum(s["transitions"] for s in res), traces_validated_against_impl=sum(s["traces"] for s in res),
               evaluations=sum(s["done"] for s in res), exhaustive=all(s["complete"] or s in [k[0] for k in kf] for s in res),
               samples=[s["space"] + ": " + s["sample"] for s in res],
               spaces=[{k: s[k] for k in ("space", "what", "cases", "done", "states", "transitions", "traces", "complete", "seconds", "violation", "message", "case")} for s in res],
               rule="every case of each space is run on the real classes (AddressSanitizer, UBSan) and compared step by step with the reference model; states = distinct model states (lower bound, hashed), transitions = operations applied to real objects, traces = complete cases compared")
    evidence(pid, tier, "model_checking", cov, ["the reference encoder, decoder and containers in /verif/seq/ref.hpp and /verif/common/wirefmt.hpp state the documented behaviour", "little-endian host", "no claim outside the alphabets and bounds listed per space"], time.time() - t0, len(bad))
    for s, k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    for s in bad:
        print("%s: %s [%s]" % (s["space"], s["message"], s["case"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, base + "." + s["space"]))
    for s in hurt: print("CHECK-ERROR property=%s space %s: %s" % (pid, s["space"], s["message"]))
    print("%s %s: %d spaces, %d cases, %d model states, %d transitions, %.1f s" % (pid, tier, len(res), cov["evaluations"], cov["states"], cov["transitions"], time.time() - t0))
    return 1 if bad else 2 if hurt else 0

def run_sim(pid, tier):
    t0 = time.time(); exe = build.build(("sim",))["sim"]; kn = known_for(pid); thorough = tier == "thorough"
    scen = []
    for line in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        name, props, bq, bt, quick = line.split("\t")
        if pid in MASKS and "-" + pid not in props.split() or pid in props.split():
            if thorough or quick == "1" or pid in props.split(): scen.append(name)
    mask = MASKS.get(pid, ALL_OF.get(pid, DEFAULT)); rd = replay_dir()
    budget = (780.0 if thorough else float(os.environ.get("VP_BUDGET", "120")))
    deadline = t0 + budget; jobs = 8
    tmp = tempfile.mkdtemp(dir=rd)
    def conf():
        p = subprocess.run([exe, "--conform", "4"], stdout=subprocess.PIPE, text=True)
        try: return json.loads(p.stdout.strip().splitlines()[-1])
        except Exception: return dict(sequences=0, operations=0, mismatches=-1, error=p.stdout[-300:])
    left = [len(scen)]
    def one(name):
        o = os.path.join(tmp, name + ".json"); r = os.path.join(rd, "%s.%s" % (pid, name))
        if os.path.exists(r): os.unlink(r)
        # a fair share of what is left
        rem = max(2.0, deadline - time.time()); share = max(4.0, rem * jobs / max(jobs, left[0])); share = min(share, rem); left[0] -= 1
        cmd = [exe, "--run", name, "--mask", str(mask), "--time", "%.1f" % share, "--out", o, "--replay-out", r] + (["--thorough"] if thorough else [])
        for k in kn:
            if k[0] == "sim:" + name: cmd += ["--known", k[1]]
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=share + 60)
        except subprocess.TimeoutExpired: return dict(scenario=name, harness=True, kind="harness", message="the explorer did not end", executions=0)
        try: return json.load(open(o))
        except Exception: return dict(scenario=name, harness=True, kind="harness", message="explorer ended with %d: %s" % (p.returncode, p.stdout[-400:]), executions=0)
    with ThreadPoolExecutor(jobs) as ex:
        fc = ex.submit(conf); res = list(ex.map(one, scen)); cf = fc.result()
    subprocess.run(["rm", "-rf", tmp])
    bad = [r for r in res if r["kind"] != "none" and not r["harness"]]; hurt = [r for r in res if r["harness"]]
    ok = [r for r in res if not r["harness"]]
    if cf.get("mismatches"): print("NOTE: simulated and real kernel differ in %s of %s sequences: %s" % (cf["mismatches"], cf["sequences"], cf.get("first", cf.get("error", ""))))
    cov = dict(states=sum(r["states"] for r in ok), transitions=sum(r["transitions"] for r in ok), traces_validated_against_impl=cf["sequences"] - max(0, cf["mismatches"]),
               evaluations=sum(r["executions"] for r in ok), distinct_nontrivial=sum(r["final_states"] for r in ok), exhaustive=all(r.get("complete") for r in res),
               samples=["%s: bound %d completed, outcomes %s" % (r["scenario"], r["bound_completed"], json.dumps(r["outcomes"])) for r in ok[:6]],
               conformance=cf, scenarios=res,
               rule="every schedule and environment answer of each scenario with at most `bound` deviations (preemptions, early timer expiry, short reads/writes, interrupted calls) is executed on the real code over the simulated kernel; states = distinct happens-before prefixes visited at choice points, transitions = scheduling steps executed, distinct_nontrivial = distinct final happens-before states; traces = syscall sequences replayed on the real kernel with equal results")
    evidence(pid, tier, "model_checking", cov, ["the simulated kernel answers like Linux (checked by replaying every short syscall sequence on the real kernel)", "sequentially consistent memory; races are reported separately under C25", "no claim beyond the deviation bound completed for each scenario"], time.time() - t0, len(bad))
    for r in ok:
        if r.get("known"):
            for k in kn:
                if k[0] == "sim:" + r["scenario"] and r["known"].startswith(k[1]): print("KNOWN-FINDING: property=%s %s" % (pid, k[2])); break
    for r in bad:
        print("%s: %s: %s" % (r["scenario"], r["kind"], r["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(rd, "%s.%s" % (pid, r["scenario"]))))
    for r in hurt: print("CHECK-ERROR property=%s scenario %s: %s" % (pid, r["scenario"], r["message"]))
    inc = [r["scenario"] for r in ok if not r["complete"] and r["kind"] == "none"]
    print("%s %s: %d scenarios, %d executions, %d states, %d steps, %d not finished to their bound, %.1f s" % (pid, tier, len(res), cov["evaluations"], cov["states"], cov["transitions"], len(inc), time.time() - t0))
    return 1 if bad else 2 if hurt or not res else 0

if __name__ == "__main__":
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run_seq(pid, tier) if pid in SEQ else run_sim(pid, tier))
