#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

1. generates behaviours of the Quint specification (`quint run`, seeded), checking the
   specification's properties on every step,
2. builds the harness from /repo's working tree and replays the behaviours on the real
   programs, comparing acceptance and state after every step, and trying every listed
   variation of each step,
3. reports the divergences that concern PROPERTY.

exit 0: held on everything explored; 1: VIOLATION; 2: could not decide.
"""
import collections
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import socket
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props as P  # noqa: E402

WORK = os.path.join(HERE, "work")
SPEC = os.path.join(HERE, "spec")


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def spec_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(SPEC + "/*.qnt")):
        if not f.endswith("math_laws.qnt"):
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def quint(module, init, step, inv, seed, samples, steps, out, timeout):
    """One simulator run; returns (ok, text, traces). Results are cached by content."""
    key = hashlib.sha256(json.dumps([spec_hash(), module, init, step, inv, seed, samples, steps]).encode()).hexdigest()[:20]
    d = os.path.join(WORK, "traces", f"{step}-{key}")
    if os.path.exists(d + "/done"):
        return True, "cached", sorted(glob.glob(d + "/*.itf.json"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    file = {"quoter_mbt": "quoter.qnt", "gov_mbt": "gov.qnt"}.get(module, module + ".qnt")
    cmd = ["quint", "run", file, "--main", module, "--init", init, "--step", step, "--invariant", inv,
           "--max-samples", str(samples), "--max-steps", str(steps), "--n-traces", str(samples),
           "--seed", str(seed), "--out-itf", d + "/{seq}.itf.json", "--verbosity", "1"]
    env = dict(os.environ, NODE_OPTIONS="--max-old-space-size=3000")
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return False, "quint timed out", sorted(glob.glob(d + "/*.itf.json"))
    tr = sorted(glob.glob(d + "/*.itf.json"))
    if r.returncode == 0 and tr:
        open(d + "/done", "w").write("")
        return True, r.stdout, tr
    return False, r.stdout + r.stderr, tr


def prove(init, law):
    """A law of the specification's arithmetic for all 64-bit values (Apalache, one state)."""
    d = os.path.join(WORK, f"laws-{os.getpid()}-{law}")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SPEC, d)
    with socket.socket() as so:
        so.bind(("127.0.0.1", 0))
        port = so.getsockname()[1]
    cmd = ["quint", "verify", "math_laws.qnt", "--main", "math_laws", "--init", init, "--invariant", law,
           "--max-steps", "0", "--server-endpoint", f"localhost:{port}"]
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=600)
        text, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        text, rc = "timed out", 1
    shutil.rmtree(d, ignore_errors=True)
    return "proved" if rc == 0 else "violated" if "[violation]" in text else "not decided: " + text[-200:]


def build(crate):
    r = subprocess.run(["bash", os.path.join(HERE, "tools/build.sh"), crate], capture_output=True, text=True)
    return r.returncode, r.stdout[-3000:] + r.stderr[-6000:]


def tags(d):
    det = d["detail"] or [""]
    return [f"{d['cat']}|{d['action']}|{x}" for x in det]


def concerns(d, pats):
    return any(re.fullmatch(p, t) for p in pats for t in tags(d)) or d["action"] == "Harness"


def known(prop):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) pattern=(\S+) (.*)", line)
        if m and m[1] == prop:
            out.append((m[2], m[3].strip()))
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = P.config(prop, tier, seed)
    os.makedirs(WORK, exist_ok=True)
    cpus = os.cpu_count() or 8
    with cf.ThreadPoolExecutor(max_workers=cpus + 1) as ex:
        builds = [ex.submit(build, c) for c in sorted({s["crate"] for s in cfg["suites"]})]
        every = [(s, r) for s in cfg["suites"] for r in s["runs"]]
        runs = [ex.submit(quint, *r) for _, r in every]
        model = [(s, r, f.result()) for (s, r), f in zip(every, runs)]
        for b in builds:
            rc, text = b.result()
            if rc != 0:
                die("the harness does not build from /repo:\n" + text)
    traces, broken = [], []
    for s in cfg["suites"]:
        s["traces"] = []
    for s, r, (ok, text, tr) in model:
        s["traces"] += tr
        traces += tr
        if not ok:
            bad = set()
            for t in tr[:1]:
                st = json.load(open(t))["states"][-1]
                bad = {x for x in (st.get("broken") or {}).get("#set", [])}
            if prop in bad:
                broken.append((r, tr[0]))
            elif not bad:
                die(f"quint {r}: {text[-2000:]}")
    laws = {law: prove(init, law) for init, law in cfg["laws"]}
    for law, verdict in laws.items():
        print(f"law {law}: {verdict}")
        if verdict == "violated":
            die(f"the specification's arithmetic breaks its law {law}")
    cfg["laws_result"] = laws
    res = {"steps": 0, "probes": 0, "actions": {}, "guards": {}, "divergences": []}
    for s in cfg["suites"]:
        replay(prop, s, res)
    mine = [d for d in res["divergences"] if concerns(d, cfg["patterns"])]
    kf, new = known(prop), []
    seen_kf = set()
    for d in mine:
        k = next((k for k in kf if any(re.fullmatch(k[0], t) for t in tags(d))), None)
        if k:
            seen_kf.add(k)
        else:
            new.append(d)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k[1]}")
    groups = collections.OrderedDict()
    for d in new:
        groups.setdefault((d["cat"], d["action"], tuple(d["detail"])), d)
    rep = os.path.join(WORK, "replay", prop)
    shutil.rmtree(rep, ignore_errors=True)
    for n, ((cat, act, det), d) in enumerate(list(groups.items())[:20]):
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, f"{n}.itf.json")
        shutil.copy(d["trace"], path)
        what = {"accept": "accepted what the specification refuses", "reject": "refused what the specification accepts",
                "state": "left a state other than the specified one"}[cat]
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {act} at step {d['step']}: the code {what}: {', '.join(det)}\n  {d['info'][:500]}")
        print(f"  replay: CONFORM_LOGS=1 {d['suite']['binary']} {d['suite']['cmd']} /dev/stdout {path}")
    for r, t in broken:
        print(f"VIOLATION property={prop} replay={t}\n  the specification itself breaks the property ({r})")
    nviol = len(groups) + len(broken)
    evidence(prop, tier, seed, cfg, res, traces, nviol, time.time() - t0)
    print(f"{prop} {tier}: {res['steps']} steps in {len(traces)} behaviours, {res['probes']} variations, "
          f"{len(res['divergences'])} divergences, {nviol} concerning {prop}, {time.time() - t0:.0f} s")
    sys.exit(1 if nviol else 0)


def replay(prop, suite, res):
    """Replays one suite of behaviours on the code and adds its results to `res`."""
    out = os.path.join(WORK, f"conform-{prop}-{suite['cmd']}.json")
    open(out + ".args", "w").write("\n".join(suite["traces"]))
    binary = suite["binary"] = os.path.join(HERE, suite["crate"], "target/debug", suite["bin"])
    if suite["cmd"] == "lib" and not os.path.exists(binary):
        # this binary alone names Rust items of the code; where it does not build (an item was
        # renamed), the programs' behaviours decide
        print("note: the direct library calls do not build against this tree and were left out")
        suite["note"] = "left out: does not build"
        return
    r = subprocess.run([binary, suite["cmd"], out, "@" + out + ".args"], capture_output=True, text=True, cwd=WORK)
    if r.returncode != 0:
        die("harness failed: " + r.stdout[-2000:] + r.stderr[-4000:])
    one = json.load(open(out))
    suite["note"] = f"{one['steps']} steps, {one['probes']} variations"
    res["steps"] += one["steps"]
    res["probes"] += one["probes"]
    res["actions"].update(one["actions"])
    for k, v in one["guards"].items():
        res["guards"][k] = res["guards"].get(k, 0) + v
    for d in one["divergences"]:
        d["suite"] = suite
        res["divergences"].append(d)


def evidence(prop, tier, seed, cfg, res, traces, nviol, wall):
    sample = None
    if traces:
        st = json.load(open(traces[len(traces) // 2]))["states"]
        acts = []
        for s in st[1:9]:
            e = (s.get("errs") or {}).get("#set", [])
            acts.append(f"{s['act']['name']}: {'accepted' if not e else 'refused (' + ', '.join(e) + ')'}")
        sample = {"behaviour": os.path.basename(os.path.dirname(traces[len(traces) // 2])), "first_steps": acts}
    acc = {k: v for k, v in res["actions"].items()}
    distinct = distinct_steps(traces)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": res["steps"] + res["probes"],
            "distinct_nontrivial": distinct,
            "rule": "steps of behaviours of the Quint specification, replayed on the programs, plus variations of each step "
                    "(one account, signature, argument or state component changed). Counted as distinct and non-trivial: "
                    "distinct (action, violated guards, projected pre-state) combinations other than the passage of time.",
            "samples": [sample],
            "traces_validated_against_impl": len(traces),
            "steps_replayed": res["steps"], "suites": {x["cmd"]: x["note"] for x in cfg["suites"]}, "variations_tried": res["probes"],
            "laws_for_all_64_bit_values": cfg["laws_result"], "actions": acc, "guards_violated_alone": res.get("guards", {}),
            "simulator_runs": [f"{r[0]} {r[1]} {r[2]} seed={r[4]} samples={r[5]} steps={r[6]}" for x in cfg["suites"] for r in x["runs"]],
        },
        "assumptions": cfg["assumptions"], "wall_s": round(wall, 1), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def distinct_steps(traces):
    seen = set()
    for t in traces:
        st = json.load(open(t))["states"]
        for a, b in zip(st, st[1:]):
            act = b["act"]
            if act.get("name") == "Tick":
                continue
            seen.add(hashlib.md5(json.dumps([act, b.get("errs"), a["s"]], sort_keys=True).encode()).digest())
    return len(seen)


main()
