"""Which contract harnesses decide which property."""
TRUSTED = [
    'clang 18 front end (C++ to LLVM IR) and the opt passes inline/sroa/early-cse/simplifycfg',
    'this VC generator (engine/): LLVM IR semantics, loop induction, memory model',
    'z3 4.x (quantifier free integer arithmetic with uninterpreted functions)',
]
L = ('-march=x86-64-v2', '-DVC_LARGE')
L2 = ('-march=x86-64-v2', '-DVC_LARGE=2')
L3 = ('-march=x86-64-v2', '-DVC_LARGE=3')
W = ('-march=x86-64-v2', '-DVC_WIDE')
V = ('-fwrapv', '-ffp-contract=off')
ISA = [('-march=x86-64', '-DLIBFLATARRAY_WIDEST_VECTOR_ISA=10'), ('-march=x86-64',), ('-march=x86-64-v2',), ('-march=x86-64-v2', '-mavx'),
       ('-march=x86-64-v3',), ('-march=x86-64-v4', '-DVC_GNUC')]
TV = ['clang 18 and LLVM lowering of vector intrinsics to IR', 'Intel SDM semantics of the x86 vector intrinsics and of insertps in engine/execb.py',
      'this VC generator (engine/execb.py, engine/bvterms.py): LLVM IR semantics, term normalisation', 'z3 4.x (bit vectors, uninterpreted functions, IEEE floating point)']
TS = 'contract-based deductive verification of the real code: VCs generated from /repo\'s compiled headers (LLVM IR with vector intrinsics, one unit per instruction set), loops over lanes unrolled completely, discharged by normalisation and z3 (bit vectors)'
TK = 'contract-based deductive verification of the real code: frame conditions (which storage an operation may write or read) on VCs generated from /repo\'s compiled headers (LLVM IR), loops by induction, discharged by z3'
def simd(src, trusted=()):
    return {'units': [{'src': src, 'flags': f + V, 'mode': 'bv', 'keep_alloc': False} for f in ISA], 'base': TV, 'technique': TS, 'trusted': list(trusted)}
PROPS = {
    'C01': {'units': [{'src': 'c01.cpp'}, {'src': 'c01.cpp', 'flags': L, 'only': ['layout_custom', 'layout_array', 'registration']}, {'src': 'c01.cpp', 'flags': L2, 'only': ['layout_custom', 'layout_array', 'registration']}, {'src': 'c01.cpp', 'flags': L3, 'only': ['layout_custom', 'layout_array', 'registration']}, {'src': 'c01.cpp', 'flags': W, 'only': ['layout_custom', 'layout_array', 'registration']}], 'slow': ['layout_default_3d', 'layout_custom']},
    'C02': {'units': [{'src': 'c02.cpp'}, {'src': 'c02.cpp', 'flags': L, 'only': ['set_get', 'set_bulk', 'get_bulk', 'get_pure', 'broadcast']}, {'src': 'c02.cpp', 'flags': L2, 'only': ['set_get', 'set_bulk', 'get_bulk', 'get_pure', 'broadcast']}, {'src': 'c02.cpp', 'flags': L3, 'only': ['set_get', 'set_bulk', 'get_bulk', 'get_pure', 'broadcast']}, {'src': 'c02.cpp', 'flags': W, 'only': ['set_get', 'set_bulk', 'get_bulk', 'get_pure', 'broadcast']}]},
    'C03': {'units': [{'src': 'c03.cpp'}, {'src': 'c03.cpp', 'flags': L}, {'src': 'c03.cpp', 'flags': L2, 'thorough_only': ['save_streaks', 'load_streaks']}, {'src': 'c03.cpp', 'flags': L3, 'thorough_only': ['save_streaks', 'load_streaks']}, {'src': 'c03.cpp', 'flags': W, 'thorough_only': ['save_streaks', 'load_streaks', 'save_many_streaks']}], 'slow': ['save_streaks', 'load_streaks', 'roundtrip']},
    'C04': {'units': [{'src': 'c04.cpp'}, {'src': 'c04.cpp', 'flags': L}, {'src': 'c04.cpp', 'flags': L2}, {'src': 'c04.cpp', 'flags': L3}, {'src': 'c04.cpp', 'flags': W}], 'slow': ['resize_too_large', 'assign']},
    'C05': {'units': [{'src': 'c05.cpp', 'opts': {'tracked_size': 4}}, {'src': 'c05.cpp', 'flags': L, 'opts': {'tracked_size': 4}, 'prefix': 'grid_', 'thorough_only': ['grid_assign', 'grid_resize_swap', 'grid_alloc_fails_ctor', 'grid_alloc_fails_resize', 'grid_alloc_fails_copy', 'grid_alloc_fails_assign']}], 'slow': ['grid_alloc_fails_resize', 'grid_assign', 'grid_resize_swap', 'grid_alloc_fails_assign']},
    'C06': {'units': [{'src': 'c06.cpp'}], 'slow': ['select_default_3d', 'dual_symmetric']},
    'C07': {'units': [{'src': 'c07b.cpp'}, {'src': 'c07b.cpp', 'flags': L}, {'src': 'c07.cpp'}, {'src': 'c07.cpp', 'flags': L}, {'src': 'c07.cpp', 'flags': L2}, {'src': 'c07.cpp', 'flags': L3}, {'src': 'c07.cpp', 'flags': W}]},
    'C08': {'units': [{'src': 'c08.cpp'}, {'src': 'c08.cpp', 'flags': L}, {'src': 'c08.cpp', 'flags': W}]},
    'C09': {'units': [{'src': 'c09.cpp'}]},
    'C10': {'units': [{'src': 'c10.cpp', 'keep_alloc': False, 'flags': ('-march=x86-64-v2', '-fsized-deallocation')}]},
    'L01': {'units': [{'src': 'l01.cpp'}]},
    'M01': {'units': [{'src': 'm01.cpp'}]},
    'K01': dict(simd('k01v.cpp'), units=[{'src': 'k01.cpp'}, {'src': 'k01.cpp', 'flags': L, 'prefix': 'grid_'}, {'src': 'k01.cpp', 'flags': W, 'prefix': 'grid_', 'thorough_only': ['grid_copy', 'grid_assign', 'grid_resize', 'grid_dual']},
            {'src': 'k01a.cpp', 'keep_alloc': False, 'flags': ('-march=x86-64-v2', '-fsized-deallocation')}] + [dict(u, opts={'statics': True}) for u in simd('k01v.cpp')['units']],
            base=TRUSTED + TV[1:3], technique=TK),
    'T01': simd('t01.cpp'),
    'V01': simd('v01.cpp'),
    'V02': simd('v02.cpp'),
    'V03': simd('v03.cpp'),
    'V04': simd('v04.cpp'),
    'V05': simd('v05.cpp', ['rcpps/rsqrtps relative error <= 1.5*2^-12, vrcp14/vrsqrt14 <= 2^-14 (Intel SDM)', 'IEEE 754: division and square root correctly rounded, hence monotonic and exact on representable results']),
}
