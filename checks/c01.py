import manygen
import typegen

LEVEL = 'exploration'
TECHNIQUE = 'generated type matrix used first in random orders from several translation units and threads under ASan/UBSan; ids, names and decay links judged against std type traits'
NOTE = ('Every pair among the generated types is compared; the types are a random sample of the type algebra (about 60 classes '
        'and fundamentals under up to five levels of pointers, cv, references and arrays). Name collisions of local, unnamed '
        'and auto-parameterised types are a listed known finding.')
RULE = ('an evaluation is one (type, translation unit) whose id, name, lookups and decay link were judged after a random first-use '
        'order; distinct counts (type, number of threads)')
ASSUMPTIONS = ['types are distinct when their generated spellings reduce to distinct C++ types by construction']
MIN_EVALS = 1500


def common(ctx, judge):
    rounds = ctx.pick(1, 8)
    for k in range(rounds):
        types = typegen.gen(ctx.rng, ctx.pick(460, 740))
        d = ctx.work + '/gen%d' % k
        import os
        os.makedirs(d, exist_ok=True)
        files = typegen.write(d, types, 8)
        srcs = files + [(ctx.src('types.cpp'), ['-I' + d, '-DROUND=%d%d%s' % (k, ctx.seed, judge == 'ident' and 1 or 2)]),
                        (ctx.src('types_special.cpp'), ['-DSPECIAL=special_a']),
                        (ctx.src('types_special.cpp'), ['-DSPECIAL=special_b', '-DANON'])]
        exe = ctx.build(srcs, exe='types%d' % k, opt='-O0')
        ctx.shards(exe, ctx.pick(12, 40), ['--judge', judge], timeout=300, prefix='r%d-' % k)


def run(ctx):
    common(ctx, 'ident')
    many = manygen.build(ctx, 'TYPES')
    ctx.shards(many, 1, ['--judge', 'types'], timeout=300, prefix='many-')
