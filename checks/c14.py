import os
import ctorgen

LEVEL = 'exploration'
TECHNIQUE = 'generated classes with constructors of every parameter form, built through the library from arguments of every kind; every constructor logs what it was given and every object is in a lifetime ledger; judged by the C++ binding rules and, for conversions, by what the compiled conversion runs; under ASan/UBSan'
NOTE = ('Classes that can be copied, moved, both or (a few) neither; up to eight further constructors each, including overloads on the kind of reference, '
        'explicit ones, named ones and repeated definitions.')
RULE = 'an evaluation is one construction, one conversion or the examination of one class; distinct counts (constructor, argument types and modes, way); trivial are refused conversions that no constructor offers'
ASSUMPTIONS = ['A constructor taking a mutable or rvalue reference offers no conversion: conversions read a constant value.',
               'A class that can neither be copied nor moved offers no default constructor, because its result could not be held by a variant.']
MIN_EVALS = 30000


def run(ctx):
    for k in range(ctx.pick(1, 5)):
        d = ctx.work + '/gen%d' % k
        os.makedirs(d, exist_ok=True)
        files = ctorgen.generate(ctx.rng, d, ctx.pick(32, 56), 8)
        exe = ctx.build([(f, ['-I' + d]) for f in files] + [(ctx.src('ctors.cpp'), ['-I' + d, '-DROUND=%d' % k]), ctx.src('ctors_related.cpp')] +
                        [(ctx.verif + '/lib/calls_group.cpp', ['-DGROUP=%d' % g]) for g in range(4)], exe='ctors%d' % k, opt='-O0')
        ctx.shards(exe, 8, ['--n', str(ctx.pick(60000, 400000))], timeout=400, prefix='k%d-' % k)
