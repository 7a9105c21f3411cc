#!/usr/bin/env python3
"""development tool: validates planted bugs in a scratch copy and writes /verif/seeded/<id>/
usage: plant.py DEFS.py [id ...]   (DEFS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)])"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
DEMO = '''#!/bin/bash
# runs demo.rs (beside this file) against the der-parser in the current directory
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
der-parser = { path = "$repo", features = ["bigint", "serialize", "as_bitvec"] }
EOT
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS || true
cargo build -q --offline --manifest-path "$t/Cargo.toml" --target-dir "$t/target"
timeout 60 "$t/target/debug/demo"
'''


def sh(cmd, cwd, to=600):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
    return r.returncode, r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.isdir(SC):
        os.makedirs(os.path.dirname(SC), exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", SC])
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SC)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(b["id"], "EDIT matches", n, "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        rc, diff = sh("git diff", SC)
        rc, out = sh("cargo check --workspace --offline -q && cargo check --workspace --no-default-features --offline -q", SC)
        if rc:
            print(b["id"], "CHECK fails", out[-1500:]); continue
        rc, out = sh("RUST_BACKTRACE=0 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1", SC)
        bad = re.findall(r"^test (\S.*) \.\.\. FAILED", out, re.M)
        if rc or bad:
            print(b["id"], "TESTS fail:", bad[:6], out[-300:] if not bad else ""); continue
        d = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.rs", "w").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write(b.get("demo_sh", DEMO))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r1, o1 = sh("bash %s/demo.sh" % d, SC)
        sh("git checkout -q -- .", SC)
        r0, o0 = sh("bash %s/demo.sh" % d, SC)
        if r1 == 0 or r0 != 0:
            print(b["id"], "DEMO wrong: patched rc", r1, "clean rc", r0, (o0 if r0 else o1)[-800:])
            shutil.rmtree(d)
            continue
        print(b["id"], "ok  (demo patched: %s)" % (o1.strip().splitlines()[-2:] or ""))
        sys.stdout.flush()


main()
