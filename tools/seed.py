#!/usr/bin/env python3
"""seed.py SCRATCH ID PROPERTY META.json EDITS.json
Makes /verif/seeded/ID from a list of edits [[file, old, new], ...]: applies them to
SCRATCH/repo, lets SCRATCH/verif's check find a diverging step, and keeps that one step
(two states of the specification) as the demonstration. Never used by a check."""
import glob, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, ID, PROP = sys.argv[1:4]
meta, edits = json.load(open(sys.argv[4])), json.load(open(sys.argv[5]))
sys.path.insert(0, HERE + "/tools")
import props
suites = props.config(PROP, "quick", 1)["suites"]
repo = W + "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f"git -C {repo} checkout -- .")
sh(f"cd {HERE} && tar cf - --exclude=target --exclude=.git --exclude=seeded --exclude=work --exclude=evidence . | tar xf - -C {W}/verif")
for f, old, new in edits:
    p = f"{repo}/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
patch = sh(f"git -C {repo} diff").stdout
assert patch
r = sh(f"VERIF_SEED=1 python3 {W}/verif/tools/check.py {PROP} quick")
print(r.stdout[-1500:])
D = f"{HERE}/seeded/{ID}"
if r.returncode != 1:
    print("NOT CAUGHT", r.returncode, r.stderr[-3000:])
    os.makedirs(f"{HERE}/work/missed", exist_ok=True)
    open(f"{HERE}/work/missed/{ID}.diff", "w").write(patch)
    sys.exit(1)
res = {"divergences": []}
for x in suites:
    for d in json.load(open(f"{W}/verif/work/conform-{PROP}-{x['cmd']}.json"))["divergences"]:
        res["divergences"].append(dict(d, suite=x))
pats = props.config(PROP, "quick", 1)["patterns"]
tags = lambda d: [f"{d['cat']}|{d['action']}|{x}" for x in (d["detail"] or [""])]
mine = [d for d in res["divergences"] if any(re.fullmatch(p, t) for p in pats for t in tags(d))]
tmp = f"{W}/cut.itf.json"
os.chdir(W)
for d in sorted(mine, key=lambda d: len(d["detail"]))[:40]:
    t = json.load(open(d["trace"]))
    n = d["step"]
    crate, binary, cmd = d["suite"]["crate"], d["suite"]["bin"], d["suite"]["cmd"]
    t["states"] = t["states"][n - 1:n + 1]
    t["states"][0].pop("probes", None)
    json.dump(t, open(tmp, "w"))
    o = sh(f"{W}/verif/{crate}/target/debug/{binary} {cmd} {W}/cut.out {tmp}")
    if o.returncode == 0 and json.load(open(f"{W}/cut.out"))["divergences"]:
        break
else:
    sys.exit("no single step shows it")
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
open(D + "/patch.diff", "w").write(patch)
json.dump(dict(property=PROP, **meta), open(D + "/meta.json", "w"), indent=1)
shutil.copy(tmp, D + "/step.itf.json")
for c in {crate, "harness"} if crate == "harness" else {crate}:
    for g in ("Cargo.toml", "Cargo.lock", "src/*.rs"):
        for f in glob.glob(f"{HERE}/{c}/{g}"):
            o = D + f"/{c}/" + os.path.relpath(f, f"{HERE}/{c}")
            os.makedirs(os.path.dirname(o), exist_ok=True)
            shutil.copy(f, o)
shutil.copytree(f"{HERE}/harness/shims", D + "/harness/shims")
if crate != "harness":
    for f in ("common", "drive", "svm", "util", "bridge"):
        p = f"{HERE}/harness/src/{f}.rs"
        os.makedirs(D + "/harness/src", exist_ok=True)
        if os.path.exists(p):
            shutil.copy(p, D + "/harness/src/")
open(D + "/demo.sh", "w").write(f"""#!/bin/bash
# Runs one instruction (and its variations) on the programs of the current directory's
# repository, from a given state; fails if the outcome is not the expected one.
set -e
src=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$src"/harness* "$tmp/"
cd "$tmp/{crate}"
sed -i "s#\\.\\./\\.\\./repo#$repo#g" Cargo.toml
. /opt/vp/env.sh
unset RUSTFLAGS
export CARGO_TARGET_DIR=$tmp/target CARGO_INCREMENTAL=0
if [ -d /opt/vp/target/debug ]; then
    mkdir -p "$tmp/target/debug/deps"
    cp -a /opt/vp/target/debug/build /opt/vp/target/debug/.fingerprint "$tmp/target/debug/"
    find /opt/vp/target/debug/deps -maxdepth 1 -type f \\( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \\) -print0 |
        xargs -0 cp -a -t "$tmp/target/debug/deps"
    for c in ntt-messages example-native-token-transfers ntt-quoter ntt-transceiver dummy-transfer-hook wormhole-governance; do
        rm -rf "$tmp"/target/debug/.fingerprint/$c-*
    done
fi
cargo build --offline --bin {binary} > "$tmp/build.log" 2>&1 || {{ tail -30 "$tmp/build.log"; exit 2; }}
"$tmp/target/debug/{binary}" {cmd} "$tmp/out.json" "$src/step.itf.json"
python3 - "$tmp/out.json" <<'PY'
import json, sys
d = json.load(open(sys.argv[1]))["divergences"]
for x in d:
    print(x["action"], x["cat"], x["detail"], x["info"][:300])
sys.exit(1 if d else 0)
PY
""")
sh(f"git -C {repo} checkout -- .")
print("OK", D, d["action"], d["cat"], d["detail"])
