#!/usr/bin/env python3
"""Unpacks the crates Cargo.lock names from cargo's download caches into ./vendor (a directory source),
because Kani's cargo does not share the registry of the toolchain that builds rgeometry."""
import glob,json,os,re,shutil,subprocess,sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
lock=open("Cargo.lock").read()
home=os.environ.get("CARGO_HOME",os.path.expanduser("~/.cargo"))
for m in re.finditer(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = [^\n]+\nchecksum = "([0-9a-f]+)"',lock):
    n,v,c=m.groups(); d=f"vendor/{n}-{v}"
    if os.path.exists(d+"/.cargo-checksum.json"): continue
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs("vendor",exist_ok=True)
    crates=glob.glob(f"{home}/registry/cache/*/{n}-{v}.crate")
    srcs=glob.glob(f"{home}/registry/src/*/{n}-{v}")
    if crates: subprocess.run(["tar","xzf",crates[0],"-C","vendor"],check=True)
    elif srcs: shutil.copytree(srcs[0],d)
    else: sys.exit(f"{n}-{v} is not cached")
    json.dump(dict(files={},package=c),open(d+"/.cargo-checksum.json","w"))
