from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration (fork tree) of all bounded deviations from the plain feeding history of the real interpolation objects, and stateless model checking of feeding concurrent with interpolation; results compared with exact arithmetic',
    'level': 'exploration',
    'level_note': '25 rational functions in 1-3 variables x safe mode x number of first probes: every history with one deviation (reordered, grouped, surplus, late probes, interpolation delayed or run early) at every step, two deviations for 10 small functions (thorough: for all); every schedule of a concurrent interpolation with one (two) preemptions; 12 polynomials x 3 degree bounds x 3 algorithms with one (two) deviations.',
}
def run():
    c = core.Check('C20', 'exploration')
    c.rule = 'every history within the bounds; non-trivial: distinct histories'
    exe = B.build(B.FLINT('tsanf', cxxflags=B.TSAN), [os.path.join(H, 'c20.cpp')], 'c20', extra_objs=B.mc_objs('tsanf'), link_flags=['-no-pie'], libs=B.FLINT_LIBS)
    c.run_shards(exe, n=96)
    c.extra['exhaustive'] = c.counts.get('capped_configurations', 0) == 0
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
