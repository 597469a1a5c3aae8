import manygen
LEVEL = 'exploration'
TECHNIQUE = 'random histories of registering, using, querying and removing converters (functors, functions, methods, with and without ok flag, throwing, failing, stateful, self-removing) against a map model under ASan/UBSan, with a call log and an object-lifetime ledger'
NOTE = ('Histories of 20 to 120 operations over 49 ordered pairs of seven types (inline, heap, copy-only, move-only, over-aligned, throwing move, trivial). '
        'A converter without ok flag that throws means "cannot convert" (the library catches it); one with ok flag passes its exception on. Up to 304 converters are registered at a time (harness/many.cpp).')
RULE = 'an evaluation is one judged registry operation or conversion; distinct counts (pair, entry point, mode of holding, converter kind, outcome)'
ASSUMPTIONS = ['types not in the table are treated like those of the same shape in it']
MIN_EVALS = 50000


def run(ctx):
    srcs = [ctx.src('convhist.cpp')] + [(ctx.verif + '/lib/convhist_group.cpp', ['-DGROUP=%d' % g]) for g in range(7)]
    exe = ctx.build(srcs, opt='-O0')
    ctx.shards(exe, 8, ['--histories', str(ctx.pick(3000, 120000))], timeout=ctx.pick(300, 850))
    many = manygen.build(ctx, 'CONVERTERS')
    ctx.shards(many, ctx.pick(4, 40), ['--judge', 'converters'], timeout=300, prefix='many-')
