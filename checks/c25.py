from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of black boxes and options with the real Reconstructor stopped after one prime field (and resumed), and stateless model checking of the same runs (all interleavings within a preemption bound, with race detection); results compared with exact arithmetic modulo the prime',
    'level': 'exploration',
    'level_note': '220 vectors of functions in 1-4 variables x shift scan x safe mode x saved states (then resumed to the end) x threads x bunch sizes; 26 small configurations in every schedule with one preemption (thorough: two). Without factor scan (the functions over the field then refer to the remaining factors).',
}
def run():
    c = core.Check('C25', 'exploration')
    c.rule = 'every interleaving within the bounds of every configuration; every configuration with one schedule; non-trivial: schedule not equivalent to one explored before'
    exe = B.build(B.FLINT('tsanf', cxxflags=B.TSAN), [os.path.join(H, 'c25.cpp')], 'c25', extra_objs=B.mc_objs('tsanf'), link_flags=['-no-pie'], libs=B.FLINT_LIBS)
    c.run_shards(exe, n=96)
    c.extra['exhaustive'] = c.counts.get('capped_configurations', 0) == 0
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
