from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'stateless exploration of the interleavings of the real master and workers (preemption- and choice-bounded) under a deterministic scheduler, with a stand-in for MPI whose message arrival is explored and whose rules are checked; happens-before race detection; results compared with exact arithmetic',
    'level': 'exploration',
    'level_note': 'Master and 1-2 workers with 1-3 threads, bunch sizes 1-4, eager and synchronous messages, shift and factor scans, safe mode, stop after some prime fields and resume, stop after the factor scan: one schedule of ~5000 configurations and every interleaving with one preemption (tiny ones: two preemptions or two free choices) of 34 configurations. The stand-in for MPI checks thread level, collectives, types, truncation, send buffers and unreceived messages.',
}
FAKE = os.path.join(H, 'fakempi')
def exe(tsan):
    p = 'tsandist' if tsan else 'dist'
    fl = B.TSAN if tsan else ['-fno-pie']
    def flav(r):
        return B.Flavour('%s%d' % (p, r), ['-DWITH_MPI=true', '-DWITH_FLINT=true'], cxxflags=fl + ['-DMPI_RANK=%d' % r] + (['-Dfirefly=ffr%d' % r, '-Drec=recr%d' % r] if r else []), mpi_include=FAKE)
    objs = []
    for r in (1, 2):
        objs += B.objects(flav(r), [os.path.join(H, 'c14_worker.cpp')], 'c14')
    f0 = flav(0)
    o = os.path.join(B.BROOT, 'fakempi_%s.o' % p)
    B.compile_many([(os.path.join(H, 'fakempi.cpp'), o, ['-std=gnu++14', '-O1', '-g1', '-fno-pie', '-w', '-I' + FAKE])])
    return B.build(f0, [os.path.join(H, 'c14.cpp')], 'c14', extra_objs=objs + [o] + B.mc_objs(p), extra_flags=['-DRACES=%d' % (1 if tsan else 0)], link_flags=['-no-pie', '-Wl,-z,muldefs'], libs=B.FLINT_LIBS)
def run():
    c = core.Check('C14', 'exploration')
    c.rule = 'all interleavings within the bounds of every configuration; non-trivial: executions which end with a compared result'
    c.run_shards(exe(True), n=32)
    c.extra['exhaustive'] = True
    c.assumptions = ['ranks are threads of one process with separate copies of the library and of the black box', 'message orders: per pair of ranks first in, first out; a send completes at once or when it is received']
    return c.finish()
