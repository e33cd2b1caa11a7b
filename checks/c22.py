from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of bounded histories of sessions: the real firefly executable is run round by round under the deterministic scheduler, a model user answers its requests in every variant of a set, every requested point and the result are compared with exact arithmetic',
    'level': 'exploration',
    'level_note': '22 sets of functions (thorough: 43) in 1-3 variables x threads x number of first probes x 6 ways of supplying the requested probes x anchor points and shifts given for one or all prime fields; sessions continue until the result is written; one thread schedule per session.',
}
def run():
    c = core.Check('C22', 'exploration')
    c.rule = 'every history of the family, session by session to the end; non-trivial: histories which end with a result'
    exe = B.build(B.FLINT("flint"), [os.path.join(H, 'c22.cpp')], 'c22', extra_objs=B.mc_objs("flint"), extra_flags=['-fno-pie', '-DFIREFLY_CPP="%s"' % os.path.join(B.REPO, 'firefly.cpp')], link_flags=['-no-pie'], libs=list(B.FLINT_LIBS) + ['-lz'])
    c.run_shards(exe, n=32)
    c.extra['exhaustive'] = True
    c.assumptions = ['the random seed of FireFly (time) differs between sessions', 'a missing file of probes may be reported with an error naming it; its first probes are then made by the user']
    return c.finish()
