from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all histories of parser operations up to a depth on the real parser, compared with the values of the retained expressions',
    'level': 'exploration',
    'level_note': 'Complete for all histories of 3-4 (4-5) operations out of 20 from 5 initial collections x options, and 5 (7) operations of a core alphabet. evaluate_pre is judged after precompute_tokens as documented; functions which agree modulo both comparison primes at a random point count as equal.',
}
def run():
    c = core.Check('C05', 'exploration')
    c.rule = 'every sequence of operations up to the depth x initial collection x check_is_equal x keep_rpn x source; non-trivial: distinct history'
    exe = B.build(B.DEFAULT('c04'), [os.path.join(H, 'c05.cpp')], 'c05', opt='-O2', lib_opt='-O2', extra_flags=['-D_GLIBCXX_ASSERTIONS'], lib_extra_flags=['-D_GLIBCXX_ASSERTIONS'])
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    return c.finish()
