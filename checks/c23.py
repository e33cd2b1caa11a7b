from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of factor patterns; the real Reconstructor is executed for each under a deterministic scheduler and compared with exact rational arithmetic',
    'level': 'exploration',
    'level_note': 'All products of univariate factors (7x7x5x5 numerator and denominator factors times cores in 2 variables, families in 1, 3 and 4 variables, vectors of functions, multi-prime coefficients), reconstructed with the factor scan and with the early stop after the factor scan; the factor strings must divide the functions and the results must be exact.',
}
def run():
    c = core.Check('C23', 'exploration')
    c.rule = 'every factor pattern; non-trivial: reconstruction executed'
    exe = B.build(B.FLINT("flint"), [os.path.join(H, 'c23.cpp')], 'c23', extra_objs=B.mc_objs("flint"), extra_flags=['-fno-pie'], link_flags=['-no-pie'], libs=B.FLINT_LIBS)
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
