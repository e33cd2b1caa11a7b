from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all token strings up to a length, accepted or rejected by the real parser against an independent recogniser of the documented grammar',
    'level': 'exploration',
    'level_note': 'Complete for all strings of up to 6 (7) tokens over nine symbols, 8 (9) tokens of signs and parentheses, and for 40 foreign tokens at every position of eleven expressions. Chains of powers, non-literal exponents and digits separated by white space are not judged.',
}
def run():
    c = core.Check('C06', 'exploration')
    c.rule = 'every token string up to the length bound over the stated alphabets x entry points (list, list with comparison, add_otf, parse_function, file); non-trivial: distinct string'
    exe = B.build(B.DEFAULT('c04'), [os.path.join(H, 'c06.cpp')], 'c06', opt='-O2', lib_opt='-O2', extra_flags=['-D_GLIBCXX_ASSERTIONS'], lib_extra_flags=['-D_GLIBCXX_ASSERTIONS'])
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    return c.finish()
