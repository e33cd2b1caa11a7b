from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of bounded families of functions; the real Reconstructor is executed for each under a deterministic scheduler and compared with exact rational arithmetic',
    'level': 'exploration',
    'level_note': 'All quotients of bounded supports and coefficient alphabets in 1-5 (6) variables, huge coefficients, high degrees and vectors of up to 72 functions; one schedule and one random seed per function (schedules: C09, options: C08).',
}
def run():
    c = core.Check('C07', 'exploration')
    c.rule = 'every function (vector) of the families; non-trivial: reconstruction executed'
    exe = B.build(B.DEFAULT('default'), [os.path.join(H, 'c07.cpp')], 'c07', extra_objs=B.mc_objs('default'), extra_flags=['-fno-pie'], link_flags=['-no-pie'])
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
