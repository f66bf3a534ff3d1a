#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from a description.

usage: seed.py <spec.py>; the spec defines ID, PROPERTY, NEEDS, BREAKS, FILE, OLD, NEW (or EDITS),
DEMO (Rust source of main.rs) and DEPS (Cargo dependency lines, None for plain rustc).
Everything is confirmed in a scratch copy of /repo: the patch applies, the demo passes without it and
fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile

RUSTC_SH = '''#!/bin/sh
# Compiles the source file of the repository with a small driver and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
sed "s#@REPO@#$(pwd)#g" "$here/demo.rs" > "$tmp/demo.rs"
rustc --edition 2021 -A warnings -o "$tmp/demo" "$tmp/demo.rs" || exit 3
timeout 120 "$tmp/demo"
'''
CARGO_SH = '''#!/bin/sh
# Compiles the source file of the repository with a small driver and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
sed "s#@REPO@#$(pwd)#g" "$here/demo.rs" > "$tmp/src/main.rs"
cp "$here/Cargo.toml.demo" "$tmp/Cargo.toml"
cp /opt/vp/partial/Cargo.lock "$tmp/Cargo.lock"
export CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0
cd "$tmp" || exit 3
cargo build --offline --quiet 2> "$tmp/log" || { cat "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
'''


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    edits = spec.get("EDITS") or [(spec["FILE"], spec["OLD"], spec["NEW"])]
    out = f"/verif/seeded/{spec['ID']}"
    os.makedirs(out, exist_ok=True)
    work = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = work + "/repo"
        r = sh(f"git clone -q /repo {repo}")
        assert r.returncode == 0, r.stderr
        for f, old, new in edits:
            s = open(f"{repo}/{f}").read()
            assert s.count(old) == 1, (f, s.count(old))
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        open(out + "/patch.diff", "w").write(sh("git diff", cwd=repo).stdout)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        if "DEMO_SH" in spec:
            open(out + "/demo.sh", "w").write(spec["DEMO_SH"])
        else:
            open(out + "/demo.sh", "w").write(RUSTC_SH if spec.get("DEPS") is None else CARGO_SH)
        if spec.get("DEPS") is not None:
            open(out + "/Cargo.toml.demo", "w").write(
                '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + spec["DEPS"])
        if "DEMO" in spec:
            open(out + "/demo.rs", "w").write(spec["DEMO"])
        os.chmod(out + "/demo.sh", 0o755)
        # confirm in copies laid elsewhere
        beside = work + "/beside"
        shutil.copytree(out, beside)
        bad = sh(f"{beside}/demo.sh", cwd=repo)
        sh("git checkout -q -- .", cwd=repo)
        good = sh(f"{beside}/demo.sh", cwd=repo)
        print(spec["ID"], "without:", good.returncode, "with:", bad.returncode, bad.stdout[-300:], bad.stderr[-300:])
        if good.returncode != 0:
            print(good.stdout[-1500:], good.stderr[-1500:])
    finally:
        shutil.rmtree(work)


main()
