import toolgen

LEVEL = 'exploration'
TECHNIQUE = 'generated programs ask the type list, callable, member detection and type transformation tools about random lists, callables, classes and types and print what they answer under names of their own; a model that never sees the headers wrote down what each answer must be; scope guards, function wrappers, ids, joined strings and signatures run random scripts under ASan/UBSan'
NOTE = 'Every operation on thousands of random type lists, every form of callable (qualifiers, noexcept, functors, lambdas, std::function), classes with random overloads; scripts of nested scopes left normally, early, by exception and with guards handed on.'
RULE = 'an evaluation is one answer compared with the model; distinct counts (question, expected answer) and scripts'
ASSUMPTIONS = []
MIN_EVALS = 30000


def run(ctx):
    for k in range(ctx.pick(1, 6)):
        d = ctx.work + '/gen%d' % k
        import os
        os.makedirs(d, exist_ok=True)
        files = toolgen.generate(ctx.rng, d, ctx.pick(3, 8), ctx.pick(28, 40))
        exe = ctx.build([(f, ['-I' + d]) for f in files] + [(ctx.src('tools.cpp'), ['-I' + d])], exe='tools%d' % k, opt='-O0')
        ctx.shards(exe, 8, ['--n', str(ctx.pick(60000, 800000))], timeout=300, prefix='k%d-' % k)
