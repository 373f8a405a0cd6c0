"""writes MANIFEST.json: one check per claimed property, the others with their reason"""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NOTE = {
 'S': 'Every obligation generated from the current strview.c is discharged by z3 for all inputs and all iterations (loop invariants inferred and proved per run, callers checked against callee contracts). Trusted: clang AST, the verification condition generator in vf/, z3, models of memchr/memcmp/memcpy/strlen/tolower... (listed in evidence); views handed in are well formed.',
 'B': 'Every obligation generated from the current strbuf.c (and the strview.c functions it calls) is discharged by z3 for every well-formed buffer state, argument and allocator behaviour. Trusted: clang AST, the VC generator in vf/, z3, models of memmove/memcpy/strlen/vsnprintf; allocators never fail.',
 'N': 'Every obligation generated from the current strnum.c is discharged by z3 for all texts, lengths and options. Trusted: clang AST, the VC generator in vf/, z3; floating point arithmetic is treated as exact real arithmetic.',
 'X': '',
}
exec(open(H + '/dev/claims.py').read())
checks = []
for p in props:
    i = p['id']
    if i not in CLAIMED: continue
    c = dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=TECH.get(i, 'contract-based deductive verification (function contracts, inferred loop invariants, SMT)'), level=LEVEL.get(i, 'proof'), level_note=LNOTE.get(i) or NOTE[i[0]])
    checks.append(c)
na = [dict(property=p['id'], reason=NA.get(p['id'], 'contracts for these functions are not built yet')) for p in props if p['id'] not in CLAIMED]
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang --version >/dev/null && mkdir -p evidence replay', checks=checks, not_applicable=na,
  notes='check.py PROP reads /repo\'s current sources through clang, generates the obligations of the contracts in contracts/, and discharges them; --replay FILE re-runs a recorded failing input on the compiled library. No hooks in /repo.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
