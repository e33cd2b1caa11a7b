from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of crash points: the real Reconstructor is killed at every file operation and within every write, resumed in a fresh process and its result compared with exact arithmetic; deterministic scheduler',
    'level': 'fault_enumeration',
    'level_note': 'Every file operation (mkdir, create, write, rename, remove) of 72 reconstructions (8 sets of functions x options x threads) as crash point, torn writes (3 prefixes, thorough every byte), probe files written at every probe (slow clock) or never, and every pair of crash points for 4 (32) of them; operations reach the disk in program order, one thread schedule per run.',
}
def exe():
    return B.build(B.FLINT("flint"), [os.path.join(H, 'c11.cpp')], 'c11', extra_objs=B.mc_objs("flint"), extra_flags=['-fno-pie'], link_flags=['-no-pie', '-ldl'], libs=B.FLINT_LIBS)
def run():
    c = core.Check('C11', 'fault_enumeration')
    c.rule = 'every crash point of every configuration (and every pair for some), followed by a resumption; non-trivial: the resumed run finished correctly or stopped with an error message'
    c.run_shards(exe(), n=32)
    c.extra['exhaustive'] = True
    c.assumptions = ['a kill keeps all completed file operations in program order (no reordering by a power failure)', 'the random seed of FireFly (time) is fixed', 'an exception of resume_from_saved_state that reaches the caller counts as an explicit error']
    return c.finish()
