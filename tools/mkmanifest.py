#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
from registry import REG, TECH, NOTE
NA = {
 'N01': 'Static analysis has no model of the operating system scheduler: eventual progress under contention is a liveness property over infinite schedules that depends on kernel futex/mutex fairness; the spin mutexes do not promise it at all.',
 'N02': 'Wall-clock latency is a runtime quantity (timer slack, load, clock adjustments) that no argument over the source can bound.',
}
DEF = 'Decides the property for all paths, inputs and interleavings admitted by the stated abstraction; trusts clang 18\'s lowering to LLVM IR, the IR exporter and abstract interpreter in engine/, and the native-call models (their possible results and effects per POSIX/Linux).'
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in ids:
    if p in REG:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'technique': TECH.get(p, TECH['*']), 'level': 'other', 'level_note': NOTE.get(p, DEF)})
na = [{'property': p, 'reason': NA.get(p, 'No check has been built for it yet.')} for p in ids if p not in REG]
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import vf; vf.irx()"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. All checks read /repo\'s current headers and sources, compile drivers to LLVM IR (never run) and analyse the IR.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
