from vk import build as B, core
import os
H = os.path.join(B.VERIF, 'harness')
MANIFEST = {
    'technique': 'exhaustive enumeration of bounded expressions, replacement tables and token strings run through the real AmplitudeParser, and of bounded sequences of runs and kills of the real ff_insert under the deterministic scheduler, against an independent evaluation of linear forms with exact arithmetic',
    'level': 'exploration',
    'level_note': 'Parser: all strings of up to 5 (6) tokens as expression and 5-6 (6-7) as table, all sums of up to 2-3 terms x coefficients x signs x 11 tables x orders of the families x layouts for 7 sets of names that contain each other. Tool: 12 (36) inputs x 15 sets of options x file/directory, each run twice, -ni followed by insertion of the coefficients and by a merge, and a kill at every file operation of 9 (30) runs with -s followed by a rerun. Names with nested brackets, chains of powers, signs behind operators and rules that are not needed are not judged; one thread schedule per run.',
}
def run():
    c = core.Check('C21', 'exploration')
    c.rule = 'every input of the family; non-trivial: inputs which are judged, i.e. accepted with the right result or refused as they have to be; sessions of the tool are added'
    exe = B.build(B.DEFAULT('c04'), [os.path.join(H, 'c21.cpp')], 'c21', opt='-O1', lib_opt='-O2', extra_flags=['-D_GLIBCXX_ASSERTIONS'], lib_extra_flags=['-D_GLIBCXX_ASSERTIONS'])
    tool = B.build(B.FLINT("flint"), [os.path.join(H, 'c21tool.cpp')], 'c21tool', extra_objs=B.mc_objs("flint"), extra_flags=['-fno-pie', '-DFF_INSERT_CPP="%s"' % os.path.join(B.REPO, 'ff_insert.cpp')], link_flags=['-no-pie', '-ldl'], libs=B.FLINT_LIBS)
    c.run_shards(tool, n=32)
    c.run_shards(exe)
    c.extra['exhaustive'] = True
    c.assumptions = ['replacements are applied once, as documented', 'a coefficient is a product; a sum without parentheses behind FUNCTION* is a term without function and has to be refused', 'a run which is killed and started again may be refused with an error message']
    return c.finish()
