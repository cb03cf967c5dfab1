#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
TECH_SYM="symbolic execution of the real generic code; SMT (z3) decides every branch and assertion over sign vectors of coordinate polynomials"
NOTE_SYM="Bounded: every input within the stated sizes, coordinates unbounded reals. Trusts the symbolic scalar, the oriented-matroid axioms (sound: every real configuration satisfies them), z3 and the textbook oracle formulas in symgeo/src/geo.rs; counterexamples are replayed natively on exact rationals before being reported."
CLAIMED={p:(TECH_SYM,NOTE_SYM) for p in "P01 P02 P03 P04 P05 P08 P09 P10 O01 G03 G04 G05 A01 A02 A03 A04 A05 A06 A07 P06 P07 G01 G02 G06 G07 G08 G09 G10".split()}
TECH_IR="symbolic execution of the LLVM IR rustc emits for the current source; z3 (nonlinear real/integer arithmetic, bit-vectors) decides every branch and assertion"
NOTE_IR="All values of the machine types (no sampling, no size bound). Trusts rustc's dev-profile IR, the IR reader in symir/src/ll.rs, z3, and the contracts of num-bigint, num-rational, rug and geometry_predicates::orient2d in symir/src/numeric.rs; every counterexample is replayed on the native code before being reported."
CLAIMED.update({p:(TECH_IR,NOTE_IR) for p in "K01 K02 K03 K04 K05 K06 K07".split()})
TECH_CBMC="bounded model checking with Kani/CBMC of the intersection set's current source (symbolic edges, pairs and random words; SAT decides every assertion of a history)"
NOTE_CBMC="Bounded: the stated operation histories, over up to 4 edges of 4 vertices (thorough: more). The source is compiled as it is, with std's Vec replaced by a bounded vector whose elements are separate objects; trusts Kani, CBMC and that vector. Counterexamples are replayed on the library itself before being reported."
CLAIMED["A08"]=(TECH_CBMC,NOTE_CBMC)
NA={}
PENDING="check not built yet"
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m=dict(version=1,setup_cmd="./setup.sh",checks=[],hooks=dict(guard="none",enable="no hooks are needed: the checks use the public API only",source_commits=[]),not_applicable=[])
for p in props:
    if p in CLAIMED:
        t,n=CLAIMED[p]
        m["checks"].append(dict(property=p,quick_cmd=f"VERIF_TIER=quick ./check.sh {p}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}",technique=t,level="model_checking",level_note=n))
    else:
        m["not_applicable"].append(dict(property=p,reason=NA.get(p,PENDING)))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); print(len(m["checks"]),"claimed")
