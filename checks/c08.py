from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all option combinations; the real Reconstructor is executed for each under a deterministic scheduler and compared with exact rational arithmetic',
    'level': 'exploration',
    'level_note': 'All 16 combinations of shift scan, factor scan, safe mode and state saving × user anchor points and shifts × thread counts × bunch sizes × verbosity on 13 black boxes; one schedule per run (schedules: C09).',
}
def run():
    c = core.Check('C08', 'exploration')
    c.rule = 'every combination of options for every black box; non-trivial: reconstruction executed'
    exe = B.build(B.FLINT("flint"), [os.path.join(H, 'c08.cpp')], 'c08', extra_objs=B.mc_objs("flint"), extra_flags=['-fno-pie'], link_flags=['-no-pie'], libs=B.FLINT_LIBS)
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['the random seed of FireFly (time) is fixed']
    return c.finish()
