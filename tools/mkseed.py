#!/usr/bin/env python3
"""Development helper: create and confirm a planted bug. usage: import and call seed(...)."""
import json, os, subprocess, shutil, sys, time
V="/verif"; R="/repo"
CARGO='''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tlsn-tls-core = { path = "@REPO@/crates/tls-core" }
%s
[workspace]
'''
DEMO='''#!/bin/bash
# Runs a small program against the tree in the current directory: exit 0 if the behaviour is right.
set -u
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -r "$H/." "$W/"; mkdir -p "$W/src"; mv "$W/main.rs" "$W/src/main.rs"
sed "s#@REPO@#$R#" "$H/Cargo.toml.in" > "$W/Cargo.toml"
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target} RUSTFLAGS=-Awarnings
cd "$W" || exit 2
cargo build --offline --quiet || exit 2
timeout 120 "$CARGO_TARGET_DIR/debug/demo" "$W"
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def clean(): subprocess.run(f"git -C {R} checkout -q -- .", shell=True, check=True)
def demo(d):
    e=dict(os.environ, DEMO_TARGET="/verif/build/demo-target")
    for f in os.listdir("/verif/build/demo-target/debug/.fingerprint") if os.path.isdir("/verif/build/demo-target/debug/.fingerprint") else []:
        if f.startswith(("tlsn","tls-","demo")): shutil.rmtree("/verif/build/demo-target/debug/.fingerprint/"+f)
    return subprocess.run(["bash", d+"/demo.sh"], cwd=R, env=e, capture_output=True, text=True)
def seed(id, prop, needs, breaks, edits, main, deps="", files=(), checks=None, cargo=None, demosh=None):
    d=f"{V}/seeded/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert sh(f"git -C {R} status --porcelain").stdout.strip()=="", "repo dirty"
    if main is not None:
        open(d+"/main.rs","w").write(main); open(d+"/Cargo.toml.in","w").write(cargo or CARGO%deps)
        for f in files: shutil.copy(f, d)
    open(d+"/demo.sh","w").write(demosh or DEMO); os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+"/meta.json","w"), indent=1)
    r=demo(d)
    if r.returncode: print(id,"demo fails on clean tree",r.returncode,r.stderr[-2500:],r.stdout[-800:]); return
    try:
        for f,a,b in edits:
            p=f"{R}/{f}"; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,"w").write(s.replace(a,b))
        open(d+"/patch.diff","w").write(sh(f"git -C {R} diff").stdout)
        r=sh("bash /opt/vp/build.sh")
        if r.returncode: print(id,"does not build",r.stderr[-1500:]); return
        r=sh("bash /opt/vp/test.sh /tmp/seed-out.json"); t=r.stdout.strip().splitlines()[-1]
        r=demo(d)
        line=f"{id}: tests [{t}] demo rc={r.returncode} {r.stdout.strip()[-120:]} {r.stderr.strip()[-160:]!r}"
        for c in (checks or [prop]):
            t0=time.time(); q=sh(f"cd {V} && ./run.sh {c} quick"); 
            v=[l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
            line+=f"\n    {c}: rc={q.returncode} {'CAUGHT' if v else 'missed'} {time.time()-t0:.0f}s {q.stdout.splitlines()[0][:160] if q.stdout else q.stderr[-300:]}"
        print(line, flush=True)
    finally: clean()
