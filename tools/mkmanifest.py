#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the properties and the claims below.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMED="C01 C02 C03 C04 C05 C06 C07 C08 C10 C14 C15 C16 C17 C18 C19".split()
NA={}
NOTE={}
TRUST=" Trusts govc (the VC generator in /verif/govc), go/ssa, z3/cvc5, and the listed models of standard library calls; float64 arithmetic is treated as real arithmetic and 64-bit + - * as unbounded."
m={"version":1,"setup_cmd":"cd govc && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go build -o ../bin/govc .","checks":[],"not_applicable":[],
 "notes":"Contracts are Go files under /verif/contracts, overlaid on /repo's packages on every run; govc generates verification conditions from go/ssa of /repo's current source and discharges them with z3 and cvc5. No hooks in /repo."}
for p in props:
    i=p['id']
    if i in CLAIMED:
        m["checks"].append({"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"VERIF_TIER=thorough ./check "+i+" thorough","technique":"contract-based deductive verification (govc: Go contracts on the real functions, VCs from go/ssa, z3/cvc5)","level":"proof",
          "level_note":NOTE.get(i,"Every obligation of every contract the property rests on is discharged for all inputs and all iterations, function by function, on /repo's current source.")+TRUST})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no contracts for this property yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
