from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of interruption points: the real Reconstructor is stopped before every black-box evaluation (and every pair), resumed in a fresh process with the same or other threads and bunch sizes, and compared with exact arithmetic; resumption with every differing black box of a set has to be refused',
    'level': 'fault_enumeration',
    'level_note': 'Every evaluation of 140 reconstructions (10 sets of functions x options x threads x bunch sizes), every pair of evaluations for the short ones, probe files written at every probe (slow clock) or never; one thread schedule per run.',
}
def exe():
    return B.build(B.FLINT("flint"), [os.path.join(H, 'c12.cpp')], 'c12', extra_objs=B.mc_objs("flint"), extra_flags=['-fno-pie'], link_flags=['-no-pie', '-ldl'], libs=B.FLINT_LIBS)
def run():
    c = core.Check('C12', 'fault_enumeration')
    c.rule = 'every interruption point of every configuration (and pairs), followed by a resumption; non-trivial: the resumed run finished with the right functions, or another black box was refused'
    c.run_shards(exe(), n=32)
    c.extra['exhaustive'] = True
    c.assumptions = ['the random seed of FireFly (time) is fixed', 'a run whose scan for a shift is interrupted may be refused with an error']
    return c.finish()
