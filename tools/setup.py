#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that the harness crates compile natively."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
t = os.path.join(V, ".work", "setup")
try:
    subprocess.run(["cargo", "kani", "--version"], check=True, env=dict(env))
    for c in ("harness", "harness_c"):
        if os.path.isdir(os.path.join(V, c)):
            subprocess.run(["cargo", "check", "-q", "--bins"], cwd=os.path.join(V, c), check=True, stderr=subprocess.DEVNULL, env=dict(env, CARGO_TARGET_DIR=t))
finally:
    shutil.rmtree(t, ignore_errors=True)
