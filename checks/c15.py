from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all matrices over small fields (and lane combinations) on the real solvers against an independent elimination oracle',
    'level': 'exploration',
    'level_note': 'Complete for all matrices up to 3x3 over small fields, 0/1/-1 matrices over a large prime and all lane pairs of 2x2 matrices; larger systems are not enumerated.',
}
def run():
    c = core.Check('C15', 'exploration')
    c.rule = 'every matrix of the stated dimensions and entry alphabets, every ordered lane pair, every set of up to 10 monomials x all anchor tuples mod 11; non-trivial: every distinct system'
    exe = B.build(B.DEFAULT('c15'), [os.path.join(H, 'c15.cpp')], 'c15', opt='-O2')
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['a bunched LU decomposition may refuse (with an error) lanes that admit no common row permutation']
    return c.finish()
