#!/usr/bin/env python3
"""Builds /verif/seeded from the planted-bug definitions in tools/seeds/*.py and validates them in a scratch copy.
usage: seed.py gen [ID..] | validate [ID..] | catch [ID..]"""
import sys,os,subprocess,json,glob,shutil,tempfile,time
V="/verif"; W="/tmp/seedwork"
ENV=dict(os.environ,RUSTUP_TOOLCHAIN="1.83.0-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",CARGO_TERM_COLOR="never",PROPTEST_RNG_SEED="20250129",PROPTEST_MAX_SHRINK_TIME="10000")
DEMO='''#!/bin/bash
# Builds a small program against /repo and runs it: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$here/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rgeometry = { path = "/repo" }
num = "0.4"
num-bigint = "0.4"
num-rational = "0.4"
num-traits = "0.2"
ordered-float = "4"
rand = { version = "0.8", default-features = false, features = ["small_rng"] }
[profile.dev]
debug = 0
EOF
cd "$w" && timeout -k 5 150 cargo run -q --offline
'''
def load():
    S={}
    for f in sorted(glob.glob(V+"/tools/seeds/*.py")):
        g={}; exec(open(f).read(),g)
        for s in g["SEEDS"]:
            assert s["id"] not in S,s["id"]; S[s["id"]]=s
    return S
def run(c,**k):
    return subprocess.run(c,shell=True,capture_output=True,text=True,env=ENV,**k)
def apply(s,root):
    for (f,old,new) in s["edits"]:
        p=root+"/src/"+f; t=open(p).read()
        n=t.count(old)
        assert n==1,(s["id"],f,n,old[:80])
        open(p,"w").write(t.replace(old,new))
def gen(S,ids):
    for i in ids:
        s=S[i]; d=f"{V}/seeded/{i}"; os.makedirs(d,exist_ok=True)
        t="/tmp/seedgen"; shutil.rmtree(t,ignore_errors=True)
        run(f"git -C /repo worktree prune; mkdir -p {t} && git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x")
        apply(s,t)
        p=run(f"git -C {t} diff").stdout
        assert p
        open(d+"/patch.diff","w").write(p)
        D=DEMO
        if s.get("features"): D=D.replace('rgeometry = { path = "/repo" }','rgeometry = { path = "/repo", features = ["%s"] }\nrug = { version = "1", default-features = false, features = ["integer"] }'%s["features"])
        open(d+"/demo.sh","w").write(D); os.chmod(d+"/demo.sh",0o755)
        open(d+"/main.rs","w").write("#![allow(unused_imports)]\nuse rgeometry::data::*;\nuse rgeometry::*;\n\n"+s["demo"].strip()+"\n")
        if s.get("features"): open(d+"/Cargo.lock","w").write(open(V+"/kern/Cargo.lock").read().replace('name = "kern"','name = "demo"'))
        else: shutil.copy(V+"/tools/seeds/Cargo.lock",d+"/Cargo.lock")
        json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
        shutil.rmtree(t)
def demo(i):
    # the demo names /repo; run it in the scratch copy by replacing the path
    d=tempfile.mkdtemp(); 
    for f in ("demo.sh","main.rs","Cargo.lock"): shutil.copy(f"{V}/seeded/{i}/{f}",d)
    t=open(d+"/demo.sh").read().replace('path = "/repo"',f'path = "{W}/repo"'); open(d+"/demo.sh","w").write(t)
    # reuse a build cache: dependencies only
    t=open(d+"/demo.sh").read().replace("unset RUSTFLAGS CARGO_TARGET_DIR","export CARGO_TARGET_DIR=/tmp/seedwork/dtarget"); open(d+"/demo.sh","w").write(t)
    r=run(f"bash {d}/demo.sh",cwd=W+"/repo"); shutil.rmtree(d); return r
def validate(S,ids):
    os.makedirs(W,exist_ok=True)
    if not os.path.exists(W+"/repo"): run(f"cp -a /repo {W}/repo")
    base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    for i in ids:
        run(f"cd {W}/repo && git checkout -q -f . && git pull -q /repo HEAD 2>/dev/null; git -C {W}/repo fetch -q /repo HEAD && git -C {W}/repo reset -q --hard FETCH_HEAD")
        r=demo(i)
        if r.returncode!=0: print(i,"DEMO FAILS ON CLEAN",(r.stdout+r.stderr)[-600:]); continue
        r=run(f"git -C {W}/repo apply {V}/seeded/{i}/patch.diff")
        if r.returncode: print(i,"PATCH",r.stderr); continue
        r=run("cargo test --workspace --all-targets --no-run --offline",cwd=W+"/repo")
        if r.returncode: print(i,"BUILD",r.stderr[-800:]); continue
        bad=[]
        for a in ("--lib --bins","--test '*'","--doc"):
            r=run(f"timeout 300 cargo test --workspace {a} --no-fail-fast --offline -- --test-threads 8",cwd=W+"/repo")
            for l in r.stdout.splitlines():
                if l.startswith("test ") and "FAILED" in l: bad.append(l.split()[1])
            if r.returncode and not bad: bad.append("?"+r.stderr[-200:])
        run(f"rm -rf {W}/repo/proptest-regressions; git -C {W}/repo checkout -q proptest-regressions")
        r=demo(i)
        ok = not bad and r.returncode!=0
        print(i,"OK" if ok else "BAD","tests failing:",bad,"demo rc",r.returncode,[l for l in (r.stdout+r.stderr).splitlines() if "panicked" in l or "error" in l][:2] if r.returncode!=0 else "",flush=True)
def catch(S,ids):
    for i in ids:
        p=json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        r=run(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
        if r.returncode: print(i,"PATCH",r.stderr); continue
        try:
            t=time.time(); r=run(f"VERIF_TIER=quick ./check.sh {p}",cwd=V)
            v=[l for l in r.stdout.splitlines() if "VIOLATION" in l]
            print(i,p,"CAUGHT" if r.returncode==1 and v else "MISSED rc=%d"%r.returncode,f"{time.time()-t:.0f}s",v[:1] if v else r.stdout.splitlines()[-2:],flush=True)
        finally: run("git -C /repo checkout -- .")
S=load(); cmd=sys.argv[1]; ids=sys.argv[2:] or list(S)
dict(gen=gen,validate=validate,catch=catch)[cmd](S,ids)
