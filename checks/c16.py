import manygen
LEVEL = 'exploration'
TECHNIQUE = 'random definition programs through every nesting of the fluent interface, each in a process of its own under ASan/UBSan; the whole tree is compared with a model by count, index, iteration and name, and random names are looked up'
NOTE = ('Namespaces four deep, 19 classes that may be nested and derive from each other, overloaded methods, constructors, properties and enums, redefinitions, '
        'parameters whose types have parentheses in their names, deferred parts, refused definitions in the middle of a chain; names defined again and again in random, partly deferred hierarchies; names come from storage that is overwritten right after the call.')
RULE = 'an evaluation is one comparison of an item, list or lookup with the model; distinct counts definition programs'
ASSUMPTIONS = ['plain method names have no parentheses of their own except operator()']
MIN_EVALS = 50000


def run(ctx):
    exe = ctx.build([ctx.src('defines.cpp')] + [(ctx.verif + '/lib/defs_group.cpp', ['-DGROUP=%d' % g]) for g in range(8)], opt='-O0')
    ctx.shards(exe, 8, ['--n', str(ctx.pick(8000, 150000))], timeout=ctx.pick(300, 850))
    first = ctx.build([ctx.src('faults_first.cpp')], exe='faults_first', opt='-O0')
    ctx.shards(first, 4, ['--match', 'definition'], timeout=300, prefix='first-')
    deep = manygen.deep(ctx, 'LOOKUP')
    ctx.shards(deep, ctx.pick(8, 200), ['--judge', 'lookup'], timeout=300, prefix='deep-')
    inherit = ctx.build([ctx.src('inherit.cpp')], exe='inherit', opt='-O0')
    ctx.shards(inherit, 8, ['--n', str(ctx.pick(1600, 40000))], timeout=ctx.pick(200, 400), prefix='inherit-')
    many = manygen.build(ctx, 'ITEMS')
    ctx.shards(many, ctx.pick(8, 80), ['--judge', 'items'], timeout=300, prefix='many-')
