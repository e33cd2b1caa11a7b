from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive small-scope enumeration on the real code against GMP rationals and brute-force fraction tables',
    'level': 'exploration',
    'level_note': 'Complete for all fractions, residues and moduli up to the stated bounds; boundary cases only for multi-prime moduli. Trusts GMP.',
}
def run():
    c = core.Check('C03', 'exploration')
    c.rule = 'complete enumeration: all fraction pairs up to a bound, all residue pairs of all coprime moduli up to a bound, all residues of all moduli up to a bound (fraction table built by brute force), plus boundary fractions for products of 1-6 table primes; non-trivial: cases where a fraction exists / operands differ'
    exe = B.build(B.DEFAULT('c03'), [os.path.join(H, 'c03.cpp')], 'c03')
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    return c.finish()
