import manygen
LEVEL = 'exploration'
TECHNIQUE = 'random histories of registering classes, declaring bases (singly, in packs, repeatedly, deferred, against unregistered bases) and looking at both ends of the graph, against a graph model, under ASan/UBSan'
NOTE = ('Families of nine classes in which any later class may declare any earlier one as a base; a declaration of several bases of '
        'which one is refused may or may not keep those named before it, but both ends must agree. Declarations are also cut short by every allocation failing in turn.')
RULE = 'an evaluation is one class whose bases, derived classes or closure was judged; distinct counts (history so far, class)'
ASSUMPTIONS = []
MIN_EVALS = 20000


def run(ctx):
    exe = ctx.build([ctx.src('bases.cpp')] + [(ctx.verif + '/lib/bases_group.cpp', ['-DGROUP=%d' % g]) for g in range(8)], opt='-O0')
    for p in range(ctx.pick(6, 120)):
        ctx.shards(exe, 8, ['--proc', str(p)], timeout=200, prefix='p%d-' % p)
    first = ctx.build([ctx.src('faults_first.cpp')], exe='faults_first', opt='-O0')
    ctx.shards(first, 2, ['--match', 'hierarchy'], timeout=300, prefix='first-')
    deep = manygen.deep(ctx, 'GRAPH')
    ctx.shards(deep, ctx.pick(8, 200), ['--judge', 'graph'], timeout=300, prefix='deep-')
    many = manygen.build(ctx, 'GRAPH')
    ctx.shards(many, ctx.pick(2, 8), ['--judge', 'graph'], timeout=300, prefix='many-')
