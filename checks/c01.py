from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive small-scope enumeration on the real arithmetic code against an exact big-integer oracle',
    'level': 'exploration',
    'level_note': 'Complete for small primes and for the boundary alphabets of large primes in both arithmetic back ends; other residues of large primes are not enumerated. Trusts GMP.',
}
def run():
    c = core.Check('C01', 'exploration')
    c.rule = 'every operator on every operand tuple of the stated alphabets (complete small fields; boundary residues of large primes); non-trivial: distinct non-zero operand pairs and big-integer conversions'
    for name, fl, libs in (('default', B.DEFAULT('c01-default'), ('-lgmpxx', '-lgmp', '-lz')), ('flint', B.FLINT('c01-flint'), B.FLINT_LIBS)):
        exe = B.build(fl, [os.path.join(H, 'c01.cpp')], 'c01', libs=libs, opt='-O2', lib_opt='-O2')
        before = set(c.viol)
        c.run_shards(exe, label=name)
        for k in [k for k in c.viol if k not in before]:
            c.viol[name + ':' + k] = c.viol.pop(k)
    c.extra['exhaustive'] = True
    c.assumptions = ['division by zero and negative powers of zero yield zero by the convention of the library']
    return c.finish()
