import manygen
import os
import hiergen

LEVEL = 'exploration'
TECHNIQUE = 'generated class hierarchies (single, multiple, virtual; abstract, padded, over-aligned, unregistered, partly declared, lazily declared): every complete object seen through every subobject is cast to every class by meta_cast and through variants, under ASan/UBSan, judged by the graph of declared bases and the addresses the compiler computes'
NOTE = ('A target that the object contains more than once is ambiguous: null or any of its real subobjects is accepted. '
        'Classes without class info of their own are known by their static type (or by an inherited class info).')
RULE = 'an evaluation is one judged cast or variant access; distinct counts (complete class, subobject, way of holding, target)'
ASSUMPTIONS = ['the hierarchies generated are representative of those that users register']
MIN_EVALS = 20000


def run(ctx):
    for k in range(ctx.pick(1, 6)):
        d = ctx.work + '/gen%d' % k
        os.makedirs(d, exist_ok=True)
        files = hiergen.generate(ctx.rng, d, ctx.pick(16, 32), 8)
        exe = ctx.build(files + [(ctx.src('hier.cpp'), ['-I' + d, '-DROUND=%d' % k])], exe='hier%d' % k, opt='-O0')
        ctx.shards(exe, 8, ['--rounds', str(ctx.pick(2, 6))], timeout=300, prefix='r%d-' % k)
    deep = manygen.deep(ctx, 'CAST')
    ctx.shards(deep, ctx.pick(8, 200), ['--judge', 'cast'], timeout=300, prefix='deep-')
    many = manygen.build(ctx, 'GRAPH')
    ctx.shards(many, ctx.pick(1, 4), ['--judge', 'cast'], timeout=300, prefix='many-')
