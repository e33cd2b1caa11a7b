from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'stateless model checking of the real Reconstructor with a monitored black box that yields to other threads within every evaluation; all interleavings within a preemption bound',
    'level': 'exploration',
    'level_note': '10 small black boxes with 1-3 threads: every schedule with one or two preemptions; all thread counts, bunch sizes and options with one schedule.',
}
def run():
    c = core.Check('C13', 'exploration')
    c.rule = 'every interleaving within the bounds of every configuration; the monitor of the contract is evaluated at the begin and end of every evaluation and prime change; non-trivial: schedule not equivalent to one explored before'
    exe = B.build(B.FLINT('flint'), [os.path.join(H, 'c13.cpp')], 'c13', extra_objs=B.mc_objs('flint'), extra_flags=['-fno-pie'], link_flags=['-no-pie'], libs=B.FLINT_LIBS)
    c.run_shards(exe, n=96)
    c.extra['exhaustive'] = c.counts.get('capped_configurations', 0) == 0
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
