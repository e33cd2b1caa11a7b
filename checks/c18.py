from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all assignments of values which vanish or coincide modulo leading primes; the real Reconstructor is executed for each under a deterministic scheduler and compared with exact rational arithmetic',
    'level': 'exploration',
    'level_note': 'All assignments of {c, p0, p0+1, p1, c+p0, ...} to the coefficients of 10 templates (2-4 coefficients, 1-3 variables) in the safe mode within the documented domain, functions which vanish in the first field, and polynomials in the normal mode with coefficients vanishing in later fields. Known findings: functions which vanish in the first field in the normal mode.',
}
def run():
    c = core.Check('C18', 'exploration')
    c.rule = 'every assignment of special values to the coefficients; non-trivial: reconstruction executed'
    exe = B.build(B.DEFAULT('default'), [os.path.join(H, 'c18.cpp')], 'c18', extra_objs=B.mc_objs('default'), extra_flags=['-fno-pie'], link_flags=['-no-pie'])
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
