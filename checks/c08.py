import os
import hiergen

LEVEL = 'exploration'
TECHNIQUE = 'every held type asked for as every type in every way (is/ref/cref/rref/data/to/canConvert, const and not, by value and by reference) under ASan/UBSan; answers judged against compile-time C++ binding traits, addresses and values against the real object'
NOTE = ('Exhaustive over 66 types of values (arithmetic, classes in and out of the inline buffer, up to three levels of pointers with const, '
        'arrays up to two dimensions) x 66 asked types x 21 ways of asking; the way the value got into the variant is random. Objects and pointers, null ones too, '
        'of related classes of generated hierarchies are asked for as each other as well (harness/hier.cpp).')
RULE = 'an evaluation is one access of one held value; distinct counts (held type, asked type, mode of holding, way of asking)'
ASSUMPTIONS = ['types not in the table are treated like those of the same shape in it']
MIN_EVALS = 80000


def run(ctx):
    srcs = [ctx.src('access.cpp')] + [(ctx.verif + '/lib/access_group.cpp', ['-DGROUP=%d' % g]) for g in range(7)]
    exe = ctx.build(srcs, opt='-O0')
    ctx.shards(exe, 8, ['--rounds', str(ctx.pick(1, 40))], timeout=ctx.pick(300, 500))
    for k in range(ctx.pick(1, 3)):
        d = ctx.work + '/gen%d' % k
        os.makedirs(d, exist_ok=True)
        files = hiergen.generate(ctx.rng, d, ctx.pick(12, 24), 8)
        exe = ctx.build(files + [(ctx.src('hier.cpp'), ['-I' + d, '-DROUND=%d' % k])], exe='hier%d' % k, opt='-O0')
        ctx.shards(exe, 8, ['--judge', 'variants', '--rounds', str(ctx.pick(2, 4))], timeout=200, prefix='r%d-' % k)
