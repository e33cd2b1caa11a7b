from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of operation x bunch size x lane x operand pair on the real code, scalar operation as oracle',
    'level': 'exploration',
    'level_note': 'Complete over the stated operand alphabets, all eight bunch sizes and both back ends; scalar arithmetic is decided separately by C01.',
}
def run():
    c = core.Check('C02', 'exploration')
    c.rule = 'every operator x bunch size x lane x operand pair of the alphabet (three lane fillings: constant, consecutive, strided); non-trivial: distinct operand pairs per bunch size and prime'
    for name, fl, libs in (('default', B.DEFAULT('c02-default'), ('-lgmpxx', '-lgmp', '-lz')), ('flint', B.FLINT('c02-flint'), B.FLINT_LIBS)):
        exe = B.build(fl, [os.path.join(H, 'c02.cpp')], 'c02', libs=libs, opt='-O2', lib_opt='-O2')
        before = set(c.viol)
        c.run_shards(exe, label=name)
        for k in [k for k in c.viol if k not in before]:
            c.viol[name + ':' + k] = c.viol.pop(k)
    c.extra['exhaustive'] = True
    c.assumptions = ['the scalar operation itself is decided by C01', 'ordering comparisons of bunches (used only for pivot choice) have no lane-wise meaning and are not part of the property']
    return c.finish()
