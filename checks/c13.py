import os
import callgen

LEVEL = 'exploration'
TECHNIQUE = 'generated functions, static and member, of every parameter form, called through the library with arguments of every kind (objects and variants; values, references, pointers, derived, convertible, wrong); each function logs what it was given and the log is judged by the C++ binding rules, under ASan/UBSan with a lifetime ledger'
NOTE = ('All pairs of thirteen value types in four parameter forms and thirteen argument modes one at a time, then random signatures '
        'of up to ten parameters. Methods of one name and signature are defined again and again in random hierarchies and looked up from every class. Move-only parameters by value and variant&& holding references may be refused or bound.')
RULE = 'an evaluation is one call; distinct counts (function, argument types and modes, instance form); trivial are calls that could only fail and did so without reaching the function when the outcome was left open'
ASSUMPTIONS = []
MIN_EVALS = 30000


def run(ctx):
    for k in range(ctx.pick(1, 5)):
        d = ctx.work + '/gen%d' % k
        os.makedirs(d, exist_ok=True)
        files = callgen.generate(ctx.rng, d, ctx.pick(76, 140), 8)
        exe = ctx.build([(f, ['-I' + d]) for f in files] + [(ctx.src('calls.cpp'), ['-I' + d, '-DROUND=%d' % k])] +
                        [(ctx.verif + '/lib/calls_group.cpp', ['-DGROUP=%d' % g]) for g in range(4)], exe='calls%d' % k, opt='-O0')
        ctx.shards(exe, 8, ['--n', str(ctx.pick(60000, 400000))], timeout=400, prefix='k%d-' % k)
    inherit = ctx.build([ctx.src('inherit.cpp')], exe='inherit', opt='-O0')
    ctx.shards(inherit, 8, ['--n', str(ctx.pick(1600, 40000)), '--judge', 'methods'], timeout=ctx.pick(200, 400), prefix='inherit-')
