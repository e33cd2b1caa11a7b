from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all polling histories between runs, and stateless model checking of a polling thread against the real Reconstructor (all interleavings within a preemption bound, with race detection); results compared with exact arithmetic',
    'level': 'exploration',
    'level_note': 'All 64 polling histories around runs of one prime field each for 6 black boxes, 6 option sets, 2 thread counts, 2 bunch sizes; 4 black boxes with a polling thread (one or two polls) in every schedule with one preemption (thorough: two).',
}
def run():
    c = core.Check('C19', 'exploration')
    c.rule = 'every interleaving within the bounds of every configuration; every polling history; non-trivial: schedule not equivalent to one explored before'
    exe = B.build(B.FLINT('tsanf', cxxflags=B.TSAN), [os.path.join(H, 'c19.cpp')], 'c19', extra_objs=B.mc_objs('tsanf'), link_flags=['-no-pie'], libs=B.FLINT_LIBS)
    c.run_shards(exe, n=96)
    c.extra['exhaustive'] = c.counts.get('capped_configurations', 0) == 0
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
