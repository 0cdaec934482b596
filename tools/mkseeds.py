#!/usr/bin/env python3
"""mkseeds.py [ID..]: makes /verif/seeded/<id>/ from the table in seeds_table.py and confirms each in a scratch copy of /repo:
the patch builds, passes the stable tests, and the demonstration fails with it and passes without it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds_table import SEEDS
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# Runs demo.rs against the shogi_core in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$t/target
unset RUSTFLAGS
mkdir -p "$t/src" && cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
shogi_core = { path = "$repo/shogi_core", features = ["std", "hash", "ord", "experimental"] }
END
cd "$t" && cargo run -q --offline
"""
NOSTD = """#!/bin/bash
# Compiles the freestanding functions of the current directory's shogi_core_c as ordinary functions and runs demo.rs on them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable
grep -v -e '#\\[no_mangle\\]' -e '#\\[global_allocator\\]' -e '#\\[alloc_error_handler\\]' -e '#\\[panic_handler\\]' -e '#\\[cfg(feature = "alloc")\\]' "$repo/shogi_core_c/src/no_std.rs" \\
  | sed -e 's/static ALLOCATOR/pub static ALLOCATOR/' -e 's/struct SimpleAllocator/pub struct SimpleAllocator/' -e 's/^mod simple_alloc/pub mod simple_alloc/' > "$t/no_std.rs"
cp "$here/demo.rs" "$t/main.rs"
cd "$t" && rustc --edition 2021 -A warnings -O -o demo main.rs && timeout 120 ./demo
"""

def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, **k)

def main():
    w = "/tmp/seedwork"
    ids = sys.argv[1:] or list(SEEDS)
    sh("rm -rf /tmp/seedwork && git -C /repo worktree prune", "/")
    sh("mkdir -p /tmp/seedwork && cp -a /repo /tmp/seedwork/repo", "/")
    r = w + "/repo"
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        s = SEEDS[i]
        d = os.path.join(S, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh("git checkout -q -- .", r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT does not fit:", t.count(old), repr(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
            open(d + "/demo.sh", "w").write(NOSTD if s.get("nostd") else DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.rs", "w").write(s["demo"].strip() + "\n")
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            b = sh("sed -e s,/repo,%s,g /opt/vp/build.sh > /tmp/seedwork/build.sh; sed -e s,/repo,%s,g /opt/vp/test.sh > /tmp/seedwork/test.sh; bash /tmp/seedwork/build.sh" % (r, r), r)
            sh("bash /tmp/seedwork/test.sh /tmp/seedwork/out.json", r)
            o = json.load(open(w + "/out.json"))
            bad = o.get("failed") or o.get("fail")
            ok = o.get("passed") or o.get("pass")
            d1 = sh("bash %s/demo.sh" % d, r)
            sh("git checkout -q -- .", r)
            d0 = sh("bash %s/demo.sh" % d, r)
            good = b.returncode == 0 and not bad and d1.returncode != 0 and d0.returncode == 0
            print(i, "OK" if good else "BAD", "build", b.returncode, "passed", ok and len(ok), "failed", bad, "demo", d0.returncode, d1.returncode, flush=True)
            if not good:
                print((b.stderr[-600:] if b.returncode else "") + d0.stderr[-800:] + (d1.stderr[-300:] if d1.returncode == 0 else ""))
    sh("rm -rf /tmp/seedwork", "/")
main()
