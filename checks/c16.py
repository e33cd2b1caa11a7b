from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of function objects (terms, coefficients, factors, variable orders) on the real printers against an independent expression evaluator',
    'level': 'exploration',
    'level_note': 'Complete over the stated monomial/coefficient/factor alphabets; equality of printed and stored function is decided by evaluation at fixed generic points of a 63-bit prime field.',
}
def run():
    c = core.Check('C16', 'exploration')
    c.rule = 'every polynomial with a bounded number of terms over the alphabets, every quotient of a family, every factor pattern and variable order; each text is evaluated by an independent evaluator and by the library parser; non-trivial: distinct function objects'
    exe = B.build(B.DEFAULT('c16'), [os.path.join(H, 'c16.cpp')], 'c16', opt='-O2')
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    return c.finish()
