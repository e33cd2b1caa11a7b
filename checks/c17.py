from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of polynomial pairs, operation histories and interpolation inputs on the real code against an independent term-map oracle',
    'level': 'exploration',
    'level_note': 'Complete over the stated coefficient and monomial alphabets, all operation histories up to the depth bound around the Horner threshold, all rational functions of low degree for Thiele; larger degrees are not enumerated.',
}
def run():
    c = core.Check('C17', 'exploration')
    c.rule = 'all ordered pairs of polynomials over the alphabets, all in-place operation sequences up to depth 4 (5) from 3 starts with evaluation after every step, all univariate polynomial pairs over F_3, F_5, F_7, all low-degree rational functions x point orders; non-trivial: distinct pair/sequence/function'
    exe = B.build(B.DEFAULT('c17'), [os.path.join(H, 'c17.cpp')], 'c17', opt='-O2', lib_opt='-O2')
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['Thiele interpolation is only required to be exact for points in general position (no vanishing inverse difference before termination)', 'univariate Poly operations other than ring operations are only defined for non-zero operands']
    return c.finish()
