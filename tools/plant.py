#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turns specifications of changes into /verif/seeded/<id>/, keeping a change only
after it was confirmed in a scratch copy: it applies, builds, passes the existing tests, and its
demonstration fails with it and passes without it.

SPEC.py defines PLANTS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=RUST, mode="release"|"debug"|..., sh=optional script)]
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
crypto-pure = { path = "$PWD" }
[profile.release]
debug = 0
OVERFLOW
TOML
export CARGO_NET_OFFLINE=true
(cd "$d" && cargo build -q --offline --release --target-dir "$d/target") || exit 3
timeout 200 "$d/target/release/demo"
"""


def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    bad = []
    for p in ns["PLANTS"]:
        if want and p["id"] not in want:
            continue
        d = os.path.join(V, "seeded", p["id"])
        w = "/tmp/plant-" + p["id"]
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        sh(f"git clone -q /repo {w}", "/")
        ok, why = True, ""
        for f, old, new in p["edits"]:
            t = open(os.path.join(w, f)).read()
            n = t.count(old)
            if n != 1:
                ok, why = False, f"{f}: {n} occurrences of {old[:60]!r}"
                break
            open(os.path.join(w, f), "w").write(t.replace(old, new))
        if ok:
            diff = sh("git diff", w).stdout
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(d + "/meta.json", "w"), indent=1)
            if "demo" in p:
                open(d + "/demo.rs", "w").write(p["demo"].strip() + "\n")
            for name, text in p.get("files", {}).items():
                open(os.path.join(d, name), "w").write(text)
            open(d + "/demo.sh", "w").write(p.get("sh") or SH.replace("OVERFLOW", "overflow-checks = true" if p.get("mode") == "checked" else ""))
            os.chmod(d + "/demo.sh", 0o755)
            e = {"CARGO_TARGET_DIR": "/tmp/plant-target"}
            for extra in ("", " --no-default-features"):
                r = sh("cargo test --offline -q" + extra, w, e)
                if r.returncode:
                    ok, why = False, f"tests{extra}: " + (r.stdout + r.stderr)[-1500:]
                    break
        if ok:
            r = sh(f"bash {d}/demo.sh", w)
            if r.returncode in (0, 3):
                ok, why = False, f"demo with the change: {r.returncode} {r.stdout[-500:]} {r.stderr[-1500:]}"
            else:
                msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if ok:
            sh("git checkout -q .", w)
            r = sh(f"bash {d}/demo.sh", w)
            if r.returncode:
                ok, why = False, f"demo without the change: {r.returncode} {r.stdout[-500:]} {r.stderr[-1500:]}"
        shutil.rmtree(w, ignore_errors=True)
        if not ok:
            shutil.rmtree(d, ignore_errors=True)
            bad.append(p["id"])
        print(p["id"], "kept" if ok else "REJECTED", "" if ok else why, msg if ok else "", flush=True)
    shutil.rmtree("/tmp/plant-target", ignore_errors=True)
    print("rejected:", bad)


main()
