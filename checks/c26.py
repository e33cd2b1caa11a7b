from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all sequences of bounded length over a set of reconstructions in one process, each executed with the real Reconstructor under a deterministic scheduler and compared with exact rational arithmetic',
    'level': 'exploration',
    'level_note': 'All pairs (6 thread and bunch combinations) and triples (2 combinations; thorough: all, and all quadruples) over 20 reconstructions with different numbers of variables and options, finished, interrupted after a prime field, stopped after the factor scan, saved and resumed; RatReconst::reset() in between as documented; one thread schedule.',
}
def run():
    c = core.Check('C26', 'exploration')
    c.rule = 'every sequence over the set up to the length bound; non-trivial: sequence executed'
    exe = B.build(B.FLINT("flint"), [os.path.join(H, 'c26.cpp')], 'c26', extra_objs=B.mc_objs("flint"), extra_flags=['-fno-pie'], link_flags=['-no-pie'], libs=B.FLINT_LIBS)
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
