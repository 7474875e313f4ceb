#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, sys
sys.path.insert(0, '/verif/engine')
import props
TECH = 'contract-based deductive verification of the real code: VCs generated from /repo\'s compiled headers (LLVM IR), loops by induction, discharged by z3'
NOTE = {
 'C01': 'All dimensions and coordinates; cell types instantiated: mixed scalar/array/char members with custom 3D sizes, default-sized type (1D/2D/3D tables), fixed array.',
 'C02': 'All dimensions, coordinates, counts, contents; instantiated cell types incl. one with 50 members.',
 'C03': 'All dimensions, coordinates, counts, contents; streak sequences of arbitrary lengths are covered for up to three streaks.',
 'C04': 'All pairs of dimensions of the instantiated cell types, all contents, all coordinates.',
 'C05': 'Ghost life-time map over every member slot; instantiated non-trivial cell types with scalar and array members; containers grid, vector, fixed array.',
 'C06': 'All 64-bit dimensions; all default tables, custom uniform and non-uniform tables, 1D/2D/3D types, symmetric and asymmetric dual callbacks.',
 'C07': 'All base coordinates and advances; representative compile-time offsets; all four accessor kinds.',
 'C08': 'All sizes and contents of the instantiated capacities; one-step contracts from any valid state.',
 'C09': 'All sizes and contents; one-step contracts from any valid state; small and default size tables.',
 'C10': 'All n and all addresses of the underlying allocator; alignments 1..4096 instantiated.',
 'V01': 'All lane values of all 18 types (3 element types, 6 arities) on 6 instruction sets; loops over lanes unrolled completely (their count is the arity). NEON, QPX, MIC and CUDA flavours cannot be compiled here.',
 'V02': 'All lane values and all masks; 12 floating-point types on 6 instruction sets (comparisons of integers exist for one lane only).',
 'V03': 'All contents; blocks with nothing accessible around them, addresses with just the required alignment; 18 types on 6 instruction sets.',
 'V04': 'All 32-bit offset vectors over a memory of 2^32 elements, unspecified upper register halves modelled; 18 types on 6 instruction sets.',
 'V05': 'Relative error calculus over the real operation tree with IEEE and Intel SDM error bounds; 18 types on 6 instruction sets.',
 'L01': 'All x <= end of the counter types; arities instantiated; macro and lambda forms.',
 'M01': 'All members of the instantiated types (up to 50 members), all indices.',
 'K01': 'Frame conditions per operation for all inputs (what may be written / read); non-interference under any schedule follows from disjoint write sets. Instantiated cell types as in C02, short vectors on 6 instruction sets.',
 'T01': 'All element types, arities 1..32 and 6 instruction sets; data set sizes at both sides of the cache estimate.',
}
NA = {'G01': 'CUDA device code: no CUDA compiler, headers or device in the sandbox, the code cannot even be parsed, so no contract over it can be discharged.'}
PENDING = 'not claimed yet'
checks = []; na = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)['id']
    if p in props.PROPS:
        checks.append({'property': p, 'quick_cmd': 'python3-vt engine/check.py %s quick' % p, 'thorough_cmd': 'python3-vt engine/check.py %s thorough' % p,
                       'technique': props.PROPS[p].get('technique', TECH), 'level': 'proof', 'level_note': NOTE[p]})
    else: na.append({'property': p, 'reason': NA.get(p, PENDING)})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
