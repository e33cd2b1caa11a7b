from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'stateless model checking of the real Reconstructor: all interleavings of the main and worker threads under a controlled scheduler within a preemption bound, with happens-before race detection, deadlock and non-termination detection',
    'level': 'exploration',
    'level_note': 'Reconstructions of 14 small black boxes (1-3 variables, several prime fields, bunches, shift scan, factor scan, safe mode) with 1-3 (4) worker threads: every schedule with one preemption (two for the smallest, thorough more) and the stated number of non-default choices at blocking operations.',
}
def exe():
    return B.build(B.FLINT('tsanf', cxxflags=B.TSAN), [os.path.join(H, 'c09.cpp')], 'c09', extra_objs=B.mc_objs('tsanf'), link_flags=['-no-pie'], libs=B.FLINT_LIBS)
def run():
    c = core.Check('C09', 'exploration')
    c.rule = 'every interleaving (at the level of synchronisation operations, up to happens-before equivalence) of every configuration within the bounds; non-trivial: schedule not equivalent to one explored before'
    c.run_shards(exe(), n=96)
    c.extra['exhaustive'] = c.counts.get('capped_configurations', 0) == 0
    c.assumptions = ['sequentially consistent memory (data races are reported separately)', 'the random seed of FireFly (time) is fixed', 'black-box evaluations do not synchronise']
    return c.finish()
