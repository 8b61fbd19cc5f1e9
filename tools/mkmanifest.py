#!/usr/bin/env python3
# Writes MANIFEST.json from the properties, the claims below and the reasons for those not claimed.
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'C33': 'Termination of the swap loop depends on runtime values (prices, liquidity, the set of ticks); no static argument in reach bounds them. The exact loop body is decided under C01.',
 'C35': 'Quantifies over whole histories of operations and sums of rounded amounts; needs an inductive numerical invariant, which static rules cannot supply. The rounding direction of each step is decided under C02, C03, C09, C10 and C11.',
 'C36': 'A numerical theorem about a multi-word long-division algorithm; C30 decides the structure of the division around the word-level core, not that the core is numerically right.',
}
TECH = {
 'tv': 'static value-graph equivalence: SSA of the current source reduced by gated value numbering to normal form and compared with the normal form of a written specification',
 'other': 'static dataflow, effect and ownership analysis over the type-checked SSA program',
}
ONE = {
 'C34': 'interval analysis of the relative error of the tick table, by the bits of the tick, over its value-graph normal form',
 'C13': 'inclusion-based points-to analysis (field-sensitive, by call site) with effect rules, and value-graph equivalence of the constructors',
 'C14': 'points-to and effect analysis of everything that runs after start-up, constant evaluation of start-up, and value-graph equivalence of the tick table',
 'C25': 'abstract interpretation of the main program (constants and names), once for every file operation whose error may be returned',
 'C27': 'abstract interpretation of the main program with runs as recorded effects, points-to rules for what follows the announcement, and value-graph equivalence of one run',
 'C28': 'effect analysis over the call graph: sources of nondeterminism, writes to outliving state, order of maps',
}
NOTE = {
 'tv': 'Every path of the listed functions is covered for all inputs; observable results, memory effects and rejection conditions must have the same normal form as the specification. Trusts: x/tools SSA construction, the rewriting rules of the checker (including the intrinsics named in DESIGN.md), separation of slices and maps owned by different structs, distinct pointer parameters. What cannot be reduced is reported undecided in the evidence and raises no alarm.',
 'other': 'The listed rule is decided at every site of the program; see DESIGN.md for the part of the property it covers. Trusts x/tools SSA construction.',
}
out = subprocess.run([V + '/bin/vchk', '-list'], capture_output=True, text=True, check=True).stdout
lv = {l.split()[0]: l.split()[1] for l in out.splitlines()}
checks, na = [], []
for p in props:
    i = p['id']
    if i in lv:
        k = 'tv' if lv[i] == 'translation_validation' else 'other'
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                       'technique': ONE.get(i, TECH[k]), 'level': lv[i], 'level_note': NOTE[k]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
