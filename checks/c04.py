from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of all expressions of the documented grammar up to a size, evaluated by the real parser in every documented way against an independent evaluator',
    'level': 'exploration',
    'level_note': 'Complete for the stated alphabets, operand and parenthesis bounds; exponents below 2^31; a chain of powers without parentheses and exponents that are not integer literals are not documented and not judged.',
}
def run():
    c = core.Check('C04', 'exploration')
    c.rule = 'every expression with up to 3 operands and 2 parentheses over {2,x,y1} x {+,-,*,/,-+} x powers x signs (and further families), all literals x contexts, every position of white space, each through evaluate/evaluate_pre/evaluate_pre_2, scalar and bunched, in two prime fields, from list, file, add_otf and parse_function; non-trivial: distinct expression text per family'
    exe = B.build(B.DEFAULT('c04'), [os.path.join(H, 'c04.cpp')], 'c04', opt='-O2', lib_opt='-O2', extra_flags=['-D_GLIBCXX_ASSERTIONS'], lib_extra_flags=['-D_GLIBCXX_ASSERTIONS'])
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    return c.finish()
