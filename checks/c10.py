from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'stateless model checking of the real thread pool: all interleavings of client scripts under a controlled scheduler (bounded preemptions), with happens-before race detection on each',
    'level': 'exploration',
    'level_note': 'All scripts of up to 3 (4) operations for pools of 0, 1, 2 threads (unbounded preemptions for one worker, 2 (4) for two), short scripts with 3 threads and with spurious wake-ups; one client thread.',
}
def run():
    c = core.Check('C10', 'exploration')
    c.rule = 'every interleaving (at the level of synchronisation operations, up to equivalence) of every client script within the preemption bound; non-trivial: schedule not equivalent to one explored before'
    exe = B.build(B.DEFAULT('tsan', cxxflags=B.TSAN), [os.path.join(H, 'c10.cpp')], 'c10', lib=False, extra_objs=B.mc_objs('tsan'), link_flags=['-no-pie'])
    c.run_shards(exe)
    c.extra['exhaustive'] = c.counts.get('capped_configurations', 0) == 0
    c.assumptions = ['sequentially consistent memory (data races are reported separately)', 'one client thread besides the tasks']
    return c.finish()
